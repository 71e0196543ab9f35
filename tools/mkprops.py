#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "The server's text of an open document is the client's text",
 "From opening to closing a document, after every change notification (incremental ranges, full replacements, or several changes in one notification), the text the server works on is byte for byte the text the client's editor holds. Ranges are the protocol's: lines end at \\n, \\r\\n or a lone \\r, characters count UTF-16 code units, and a character beyond the end of a line means the end of that line. Opening uses the text sent by the client even if the file on disk differs, and the document's lines stay the lines of that text.",
 ["histories", "inputs"], "Every sequence of change notifications over texts mixing ASCII, multi-byte and astral characters and every kind of line ending, including edits that split or join line endings and edits at or past the end of a line or of the text.",
 "Document tests apply a handful of hand-written ASCII edits with \\n line endings; a text drifts apart only after particular sequences of edits.",
 ["analysis/document.go", "internal/lsp/workspaceStore.go", "internal/lsp/sync.go", "analysis/store.go"],
 [("ApplyChanges splices text and maintains line starts", "analysis/document.go"), ("calculateLineOffsets / OffsetAtPosition", "analysis/document.go"), ("changeDocument, didOpen", "internal/lsp")],
 [("text", "document text", "Document.text"), ("lineOffsets", "start offset of every line", "Document.lineOffsets")],
 ["Document.GetText after each change", "textDocument/* answers after didChange"])

prop("C02", "Every position the server reports denotes the text it is about",
 "Every range the server reports for a declaration or use (document outline, definition, references, diagnostics) starts and ends, counted in the protocol's lines and UTF-16 characters, exactly around the source text of that construct in the current document. Conversely a position sent by the client selects the construct covering that character. The document outline contains every class, interface, trait, function, constant, method, property and class constant of the current text, nested as in the source, and nothing else.",
 ["inputs", "histories"], "Every placement of constructs in a document: after multi-byte or astral characters, after any line ending, on the first/last line, in braced or unbraced namespaces, and after any edit history.",
 "Snapshot tests contain ASCII sources with \\n only and are loaded once, never after edits.",
 ["analysis/document.go", "internal/lsp/symbol.go", "internal/lsp/definition.go", "internal/lsp/reference.go"],
 [("positionAt / OffsetAtPosition / NodeRange", "analysis/document.go"), ("documentSymbol", "internal/lsp/symbol.go")],
 None, ["textDocument/documentSymbol, definition, references, publishDiagnostics"])

prop("C03", "Each request gets exactly one response; each call its own answer",
 "Every request received on a connection is answered exactly once with its own id (number or string), whatever its handler does (replies, fails, replies twice, returns a value that cannot be encoded, never replies, is cancelled), and a notification is never answered. Every outgoing call returns exactly the response carrying its id, in whatever order responses arrive, or its cancellation; cancelling one request affects only that request. Unknown, duplicate, late or malformed messages from the peer never stop the connection from serving the messages after them.",
 ["schedules", "histories", "fault_sequences"], "Every interleaving of arriving requests, notifications, responses (unknown, duplicated, out of order, late) and malformed messages with handler steps, cancellations and outgoing calls.",
 "The connection test makes a few sequential calls between two well-behaved peers; no test sends an unknown response, cancels, or interleaves.",
 ["internal/jsonrpc2/jsonrpc2.go", "internal/jsonrpc2/wire.go", "internal/jsonrpc2/handler.go"],
 [("Conn.Run demultiplexing, pending map", "internal/jsonrpc2/jsonrpc2.go"), ("Request.Reply state machine, auto-reply", "internal/jsonrpc2/jsonrpc2.go")],
 [("pending", "outgoing calls awaiting a response", "Conn.pending"), ("handling", "requests being handled", "Conn.handling")],
 ["messages written to the peer", "return values of Call"])

prop("C04", "Incoming messages are handled in arrival order, one at a time until released",
 "Handlers of incoming requests and notifications start in the order in which the messages arrived, and none starts before every earlier one has been answered, has returned, or has declared that it can run in parallel. As soon as that has happened the next one starts without waiting for anything else, in particular not for the previous handler to finish, for a pending outgoing call, or for further input.",
 ["schedules"], "Every interleaving of message arrivals with handlers that go parallel, reply early and continue working, fail, wait for an outgoing call, are cancelled while waiting, or return silently.",
 "Tests use handlers that reply at once; neither order violations nor a lost hand-over of the turn can show.",
 ["internal/jsonrpc2/jsonrpc2.go"],
 [("nextRequest chain, Parallel, Reply, deferred release", "internal/jsonrpc2/jsonrpc2.go")],
 [("nextRequest", "turn hand-over between consecutive requests", "Request.nextRequest"), ("state", "waiting/serial/parallel/replied/done", "Request.state")],
 ["handler start order"])

prop("C05", "Message framing delivers every message whole, in order, exactly once",
 "The sequence of messages read from a stream is exactly the sequence written by the other side, for any message contents and sizes, any number of concurrent writers, and any way the transport cuts the bytes into reads. Extra headers and spacing around header values do not matter, and a malformed header or truncated stream yields an error rather than a wrong or partial message.",
 ["schedules", "inputs", "fault_sequences"], "Every interleaving of concurrent writers, every chunking of the byte stream, every message content including multi-byte text, and truncation or corruption of a header at any byte.",
 "The existing test sends small messages through a synchronous pipe from one writer.",
 ["internal/jsonrpc2/stream.go"],
 [("headerStream.Read/Write with outMu", "internal/jsonrpc2/stream.go"), ("plainStream", "internal/jsonrpc2/stream.go")],
 None, ["Stream.Read results", "bytes written"])

prop("C06", "The server survives and answers any session",
 "In any sequence of lifecycle and document messages (requests before, during or after initialisation, repeated initialisation, shutdown, unknown methods, missing or ill-typed parameters, queries about documents never opened, closed, deleted, empty or syntactically broken, at any position), the process neither crashes nor hangs and every request gets a result or an error. Initialisation succeeds exactly once; before it is completed a shutdown is refused, and a failed message leaves the server able to serve the following ones.",
 ["histories", "inputs", "fault_sequences"], "Every sequence of protocol messages, every document content including any prefix of a valid program and cyclic class hierarchies, and every position.",
 "There are no tests of the server package at all; analysis tests parse complete, valid samples.",
 ["internal/lsp/server.go", "internal/lsp/general.go", "internal/lsp/protocol/server.go", "internal/lsp/completion.go", "internal/lsp/hover.go", "internal/lsp/signature.go", "analysis/query.go"],
 [("lifecycle state machine", "internal/lsp/general.go"), ("message dispatch", "internal/lsp/protocol/server.go")],
 [("state", "created/initializing/initialized/shut down", "Server.state")],
 ["responses on the wire", "liveness of the process"])

prop("C07", "Symbol lookups return exactly what the current sources declare",
 "After any history of opening, editing, closing, creating, changing and deleting files, looking up a class, interface, trait, function, constant, define, method, property, class constant or global variable returns exactly the declarations contained in the current contents of the workspace's files (the editor's text for open documents), each with its file, place and declared attributes. Nothing removed or renamed remains and nothing present is missing, even if several files declare the same name. (A single file declares a name at most once; class names and method names are looked up without regard to letter case.)",
 ["histories"], "Every history of document and file events over several files that share names, namespaces and classes, with contents drawn from all kinds of declarations.",
 "Store tests index each file once into a fresh store; leftovers and losses appear only after particular sequences of re-indexing across files sharing names.",
 ["analysis/store.go", "analysis/class.go", "analysis/method.go", "analysis/property.go", "analysis/classConst.go", "analysis/function.go", "analysis/const.go", "analysis/define.go", "analysis/interface.go", "analysis/trait.go", "analysis/globalVariable.go"],
 [("SyncDocument / writeAllSymbols / symbolDeletor", "analysis/store.go"), ("CompareAndIndexDocument, OpenDocument, CloseDocument, DeleteDocument", "analysis/store.go")],
 [("symbol entries", "one entry per declaration and file", "Store.db"), ("docSym", "keys owned by each document", "Store.greb")],
 ["Store lookups", "textDocument/definition"])

prop("C08", "Name search finds exactly the currently declared names",
 "After any history of document and file events, searching by keyword (symbol search, completion of types, functions, constants and namespaces) returns exactly the currently declared symbols one of whose words starts with a word of the keyword, each once per declaration, and within the requested namespace when one is given (for classes also the namespaces below it). Symbols or namespaces that no file declares any more are never offered.",
 ["histories", "inputs"], "Every history over files sharing names and namespaces, and every keyword: whole names, prefixes of any camelCase or snake_case word, other letter case, unrelated words.",
 "Completion tests search a store built once from one file; stale or lost entries need histories across files.",
 ["analysis/completionIndex.go", "analysis/store.go", "analysis/namespace.go", "analysis/wordtokeniser/casing.go"],
 [("createCompletionEntries / completionIndexDeletor / searchCompletions", "analysis/completionIndex.go"), ("Search* functions", "analysis/store.go"), ("word tokeniser", "analysis/wordtokeniser")],
 [("completion entries", "word -> symbol key", "Store.comDB"), ("docCom", "completion keys owned by a document", "Store.comDB")],
 ["Store searches", "workspace/symbol"])

prop("C09", "Find references returns exactly the uses in the current sources",
 "For any class, interface, trait, function, method, property or class constant, the references returned are exactly the places in the current contents of the workspace's files that name it, its declaration included, each with the right file and range: none is missing, none is left over from earlier contents or deleted files, and none belongs to another name. Members are referenced by their name alone; an unqualified call in a namespace counts for the namespaced function and for the global one it may fall back to. This holds after any history of edits, file events and restarts.",
 ["histories", "inputs"], "Every history over several files using the same functions, classes, methods, properties and constants from different namespaces, including files emptied, re-created and unchanged ones re-indexed, and restarts in between.",
 "The reference index test indexes fixed documents once; its probabilistic filter and its per-file entries are only stressed by re-indexing, deletion and reload.",
 ["analysis/referenceIndex.go", "analysis/filter/filter.go", "analysis/store.go", "internal/lsp/reference.go"],
 [("referenceIndex.index/deleteURI/search", "analysis/referenceIndex.go"), ("xor filter", "analysis/filter/filter.go"), ("SymToRefs", "analysis/store.go")],
 [("entries", "per-file filter in memory", "referenceIndex.entries"), ("refInd", "per-file uses on disk", "Store.db")],
 ["Store.GetReferences", "textDocument/references"])

prop("C10", "After a restart the index equals one built from scratch",
 "When a workspace is closed and opened again, whatever was created, changed, deleted or renamed on disk in between, indexing leaves every lookup, search and reference query answering exactly as if the index had been built from nothing on the present files. Files that did not change keep all their information; files that disappeared keep none.",
 ["histories"], "Every history of editing sessions interleaved with restarts and with file changes made while the server was down, including reverting a file to earlier contents and moving content between files.",
 "No test reopens a store; each creates a fresh directory.",
 ["analysis/store.go", "analysis/referenceIndex.go"],
 [("PrepareForIndexing / CompareAndIndexDocument / FinishIndexing", "analysis/store.go"), ("loading of reference filters on open", "analysis/referenceIndex.go")],
 [("syncedDocumentURIs", "files known on disk but not yet seen", "Store.syncedDocumentURIs"), ("doc", "content hash per file", "Store.db")],
 ["all Store queries after reopening"])

prop("C11", "A crash at any moment leaves nothing stale once re-indexed",
 "If the process is killed at any point while indexing, changing or deleting documents, the next start succeeds and, once indexing has finished, every lookup, search and reference query answers exactly as if the index had been built from nothing on the present files.",
 ["crash_points", "histories"], "Every point between two writes to any of the on-disk databases during any operation, followed by any file changes before the restart.",
 "No test kills the process, and the three on-disk databases are written separately.",
 ["analysis/store.go", "analysis/storage/goleveldb.go"],
 [("SyncDocument / DeleteDocument write order across the databases", "analysis/store.go"), ("document hash compared at the next start", "analysis/store.go")],
 [("db, comDB, greb", "three separately written databases", "Store")],
 ["all Store queries after crash, reopen and re-index"])

prop("C12", "Deleting a file or folder forgets exactly what lay in it",
 "When a file is deleted, exactly that file's symbols, names and references disappear; when a folder is deleted, exactly those of the files below it do, at any depth. Files whose path merely begins with the same characters, and other files that declare the same names, members or namespaces, keep everything.",
 ["histories", "inputs"], "Every layout of files and folders whose names are prefixes of one another or share symbols, and every order of deletions, re-creations and edits.",
 "No existing test deletes a document or a folder.",
 ["analysis/store.go", "internal/lsp/workspaceStore.go", "analysis/completionIndex.go"],
 [("DeleteDocument / DeleteFolder", "analysis/store.go"), ("removeDocument, deletor", "internal/lsp/workspaceStore.go")],
 None, ["all Store queries after deletions", "didChangeWatchedFiles with Deleted"])

prop("C13", "Each document is served by its own workspace folder",
 "With several workspace folders open, including folders nested in one another or whose paths begin alike, every document is indexed in and answered from the innermost folder containing it, and only there. Folders can be added and removed at any time, repeatedly: a removed folder answers nothing, a re-added one answers from its present files, and the other folders are unaffected throughout.",
 ["histories", "configurations"], "Every arrangement of folders and every history of adding, removing and re-adding them, interleaved with document and file events.",
 "No test runs more than one folder or the workspace layer at all.",
 ["internal/lsp/workspaceStore.go", "internal/lsp/server.go", "analysis/store.go"],
 [("getStore, addView, removeView", "internal/lsp/workspaceStore.go"), ("Store.Close releases every database", "analysis/store.go")],
 [("stores", "open workspace folders", "workspaceStore.stores")],
 ["workspace/symbol, definition and documentSymbol answers over the wire"])

prop("C14", "Concurrent indexing converges to the present contents",
 "Whatever the timing of background indexing, file-watcher events, and document notifications, once all of them have been processed the index reflects exactly the files as they are on disk and, for open documents, the text in the editor. No interleaving leaves older contents, a deleted file, or nothing at all in place of a present file, and no event blocks the processing of later ones.",
 ["schedules", "histories"], "Every interleaving of the background indexer and the parallel create and delete workers with open, change and close notifications and watcher events for the same and for different files.",
 "No test runs the workspace layer; every analysis test is sequential.",
 ["internal/lsp/workspaceStore.go", "internal/lsp/sync.go", "analysis/store.go"],
 [("create and delete workers", "internal/lsp/workspaceStore.go"), ("didChangeWatchedFiles", "internal/lsp/sync.go"), ("CompareAndIndexDocument / changeDocument", "analysis/store.go")],
 [("createJobs, deleteJobs", "work queues", "workspaceStore"), ("documents", "in-memory documents", "Store.documents")],
 ["workspace/symbol over the wire at quiescence"])

prop("C15", "Members offered and found follow inheritance and visibility",
 "For any set of classes, interfaces and traits, the methods, properties and class constants found or offered for an access are those the type declares or inherits through extends, implements and use, at any depth and in other files, restricted to what is visible there: private only within the declaring class, protected within related classes, static rules for ::, parent:: excluding the class itself. A member overridden in a nearer type hides the farther one, and every query terminates, also on cyclic or incomplete hierarchies.",
 ["programs", "configurations"], "Every graph of extends, implements and use relations (cycles, diamonds, missing or duplicated types), every distribution of members and visibilities over it, and every accessing class and kind of access.",
 "Query tests cover a dozen hand-picked hierarchies of depth at most three without cycles.",
 ["analysis/query.go", "internal/lsp/completion.go", "internal/lsp/definition.go"],
 [("GetClassMethods/Props/ClassConsts and interface/trait counterparts", "analysis/query.go"), ("IsInherited, IsInheritedStatic, Reduce*", "analysis/query.go")],
 None, ["Query results", "textDocument/completion and definition"])

prop("C16", "Names resolve by PHP's namespace and import rules",
 "Any class, function or constant name in a document resolves to the fully qualified name that PHP's rules give it from the namespace and use declarations in force at that place: fully qualified names as written, namespace-relative names, aliases (also of the first part of a qualified name, also in group uses) per kind, and fallback to the global function or constant only if the namespaced one does not exist. The use declaration inserted by a completion makes the completed name resolve to the chosen symbol.",
 ["programs", "inputs"], "Every combination of one or several namespaces, use declarations of every form, symbols that exist or not, and name forms (unqualified, qualified, fully qualified, relative).",
 "Import table tests resolve a few names in one file with one namespace.",
 ["analysis/importTable.go", "analysis/use.go", "analysis/namespace.go", "analysis/insertUse.go", "analysis/symbolType.go"],
 [("GetClassReferenceFQN / GetFunctionReferenceFQN / GetConstReferenceFQN", "analysis/importTable.go"), ("ResolveToQualified / GetUseEdit", "analysis/importTable.go, analysis/insertUse.go")],
 None, ["resolved names", "textDocument/definition", "completion text edits"])

prop("C17", "The last published diagnostics of a document describe its latest text",
 "Once notifications stop, the last diagnostics published for every open document are exactly those of its latest text against the index at the time they were computed: syntax errors, unused variables and imports, and uses of deprecated functions, constants, classes, interfaces and members (own or inherited), with ranges in that text. Activity in other documents neither suppresses nor alters them, and diagnostics are only ever published under the document they belong to.",
 ["schedules", "histories"], "Every history and timing of opens and changes over several documents, faster or slower than the delay before deprecation diagnostics are computed.",
 "No test covers publishing; diagnostic tests compute them once for one document.",
 ["internal/lsp/diagnostics.go", "analysis/diagnostic.go", "analysis/variable.go", "analysis/importTable.go"],
 [("provideDiagnostics with debounce", "internal/lsp/diagnostics.go"), ("GetParserDiagnostics / UnusedDiagnostics / DeprecatedDiagnostics", "analysis/diagnostic.go")],
 None, ["textDocument/publishDiagnostics notifications"])

prop("C18", "A completion list called complete omits nothing",
 "Whenever a search or completion answer is not marked incomplete, it contains every matching symbol of every kind it covers; whenever a result limit cut anything off, it is marked incomplete, and no kind of symbol ever exceeds the requested limit. Identical candidates are not offered twice.",
 ["inputs", "configurations"], "Every number of matching symbols of each kind relative to the limit, every keyword and namespace scope, and every completion context.",
 "Tests never reach the limit and never look at the incompleteness mark.",
 ["analysis/store.go", "analysis/completionIndex.go", "internal/lsp/completion.go"],
 [("WithLimit / IsLimitReached / searchCompletions", "analysis/store.go, analysis/completionIndex.go"), ("IsIncomplete of completion lists", "internal/lsp/completion.go")],
 None, ["SearchResult", "CompletionList.isIncomplete"])

prop("C19", "Variables are tracked per scope: rename and unused hints stay inside it",
 "Renaming a variable edits exactly its occurrences in the function, method, closure or file scope it belongs to, each once, and nothing else. A variable is reported unused exactly if it is assigned or declared in a scope and not read afterwards there.",
 ["programs"], "Every nesting of functions, methods and closures using the same variable names, with every order of assignments, parameters, catch, foreach, static and global declarations and reads.",
 "Variable tests check two or three fixed functions.",
 ["analysis/variable.go", "analysis/document.go", "internal/lsp/reference.go"],
 [("VariableTable per scope", "analysis/variable.go"), ("rename", "internal/lsp/reference.go"), ("unusedVariables", "analysis/variable.go")],
 [("variables", "occurrences by name", "VariableTable.variables")],
 ["textDocument/rename", "unused hints"])

prop("C20", "Storage back ends behave as one ordered map with atomic batches",
 "Every storage back end answers reads, prefix scans and deletes exactly like an ordered map from keys to values: a scan visits exactly the keys with the prefix, in order, with their values, and can be stopped; a batch takes effect completely or, if its callback fails, not at all; clearing leaves nothing. The disk back end keeps its contents across reopening, and all back ends agree on every history.",
 ["histories", "schedules"], "Every history of puts, deletes, batches, scans, clears and reopens over keys that are prefixes of one another and contain any bytes, also from concurrent users.",
 "Only the value encoding is unit-tested; no test compares back ends or fails a batch.",
 ["analysis/storage/main.go", "analysis/storage/memory.go", "analysis/storage/goleveldb.go"],
 [("Memory, GoLevelDB, Combined", "analysis/storage")],
 None, ["storage.DB results"])

prop("C21", "Signature help and parameter hints describe the call at the cursor",
 "When signature help is requested between the parentheses of a call (a function, a new object, a static or instance method, at any nesting, also a call that is not finished yet), the server answers with the parameters (type, name, default value, in order) of what the innermost call around the place calls as it is declared now, and the active parameter is the number of the call's own commas before the place: commas in strings, comments, nested calls, arrays and closures do not count. Calls to what is not declared have no signature. The parameter hints of a document name, for every argument of every call, the parameter it is passed to, at exactly the argument's text.",
 ["inputs", "histories"], "Every nesting of calls with any arguments, spaces, line endings and comments, finished or not, every place in them, every library of functions and inherited or overridden methods, and every history of edits of either.",
 "No test requests signature help or hints; argument lists are only snapshot for a few finished calls.",
 ["internal/lsp/signature.go", "analysis/argumentList.go", "analysis/document.go", "analysis/methodAccess.go"],
 [("ArgumentListAndFunctionCallAt", "analysis/document.go"), ("signatureHelp, documentSignatures", "internal/lsp/signature.go"), ("newArgumentList ranges", "analysis/argumentList.go")],
 None, ["textDocument/signatureHelp", "documentSignatures"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
