"""C19: variables belong to scopes. specs/Vars.tla says of each occurrence whether its value is read
afterwards; VarsMC checks that a table filled while reading a scope says the same; VarsGen writes
documents, which are opened in the server: what is said to be unused and every rename are compared."""
import vf


def run():
    r = vf.Report("C19", "model_checking")
    t = vf.THOROUGH
    r.model(vf.exhaustive("VarsMC", "VarsBig.cfg" if t else "VarsMC.cfg", timeout=800))
    b = vf.build()
    num = 20000 if t else 3000
    while num > 0 and not r.violations:
        tr = vf.generate("VarsGen", "VarsGen.cfg", min(num, 2000), 43, parts=6, timeout=600)
        num -= 2000
        m, s = vf.run_harness(b, "vars", tr, jobs=8, timeout=1200)
        r.replayed(tr, m, s, keep=1)
        vf.SEED += 7919
    r.assumptions = ["documents which the parser reports syntax errors in are left out (they are counted as unparsed)",
                     "compact(), extract(), ${name} in strings and $$name as a target do not count as reads or writes of a variable",
                     "unset, element assignments and compound assignments may or may not count as reads; a rename at a closure's use may be of either scope"]
    return r.finish()
