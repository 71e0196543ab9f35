"""C16: names resolve by the rules of PHP. specs/Names.tla says what a written name means and which ways
there are to write a symbol; NamesMC checks that a completion with its import means what was chosen;
NamesGen writes definitions and documents: the definition of each name is asked for, and each
completion is applied and asked for again."""
import vf


def run():
    r = vf.Report("C16", "model_checking")
    t = vf.THOROUGH
    r.model(vf.exhaustive("NamesMC", "NamesBig.cfg" if t else "NamesMC.cfg", timeout=800))
    b = vf.build()
    num = 20000 if t else 3000
    while num > 0 and not r.violations:
        tr = vf.generate("NamesGen", "NamesGen.cfg", min(num, 2000), 3, parts=6, timeout=600)
        num -= 2000
        m, s = vf.run_harness(b, "names", tr, jobs=8, timeout=1200)
        r.replayed(tr, m, s, keep=1)
        vf.SEED += 7919
    r.assumptions = ["a relative name (namespace\\f) does not start a statement: the parser takes it for a namespace declaration",
                     "namespaces and functions are written in the case they are declared in; aliases in any case",
                     "names refer to symbols of the kind their place asks for, classes and interfaces being told apart",
                     "a completion of a word replaces the part after its last backslash"]
    return r.finish()
