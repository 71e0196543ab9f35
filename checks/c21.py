"""C21: calls. CallsMC checks which call a place is in, and the number of its argument, against
counting parentheses; CallsGen writes a library and a document of calls, and changes of both: the
signature at the places of the calls, also of one being written, and the hints beside all arguments
are compared."""
import vf


def run():
    r = vf.Report("C21", "model_checking")
    t = vf.THOROUGH
    r.model(vf.exhaustive("CallsMC", "CallsBig.cfg" if t else "CallsMC.cfg", timeout=900))
    b = vf.build()
    num = 6000 if t else 900
    while num > 0 and not r.violations:
        tr = vf.generate("CallsGen", "CallsGen.cfg", min(num, 900), 7, parts=6, timeout=600)
        num -= 900
        m, s = vf.run_harness(b, "calls", tr, jobs=8, timeout=1200)
        r.replayed(tr, m, s, keep=1)
        vf.SEED += 7919
    r.assumptions = ["places inside of arrays' brackets and closures' bodies which are no arguments of a call written there are not asked for",
                     "a call which is not finished is asked about at the place where it is being written",
                     "the types of parameters and the classes of values are declared (specs/Members.tla and Vars.tla are about what is inferred)"]
    return r.finish()
