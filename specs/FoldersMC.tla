---- MODULE FoldersMC ----
EXTENDS Folders
\* an outer folder with a nested one
InMC == [o |-> {"oa", "ia"}, i |-> {"ia"}]
====
