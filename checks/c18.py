"""C18: what is called complete is complete. specs/Search.tla says what a list with a mark may be;
SearchMC checks the scan with its limits against it; SearchGen writes workspaces with about as many
symbols as the limit of the server, in which every completion context and workspace/symbol is asked.
Searches of the store with small limits are replayed from IndexGen's histories."""
import ix
import vf


def run():
    r = vf.Report("C18", "model_checking")
    t = vf.THOROUGH
    r.model(vf.exhaustive("SearchMC", "SearchBig.cfg" if t else "SearchMC.cfg", timeout=800))
    b = vf.build()
    num = 8000 if t else 800
    while num > 0 and not r.violations:
        tr = vf.generate("SearchGen", "SearchGen.cfg", min(num, 800), 3, parts=6, timeout=600)
        num -= 800
        m, s = vf.run_harness(b, "search", tr, jobs=8, timeout=1500)
        r.replayed(tr, m, s, keep=1)
        vf.SEED += 7919
    if not r.violations:
        # small limits, and everything a keyword matches, after histories of changes
        tr = ix.behaviours("files", 900 if t else 240)
        m, s = vf.run_harness(b, "index", tr, extra=["queries"], timeout=800)
        r.replayed(tr, m, s, keep=1)
    r.assumptions = ["an answer of null is no list (a name which ends in a backslash outside of expressions the parser recovers)",
                     "names begin with the keyword in any case, or a word of them does; other matches are allowed",
                     "workspace/symbol has no mark: it has to be complete where fewer than the limit match"]
    return r.finish()
