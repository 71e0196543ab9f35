"""C17: what is published last about a document describes its last text. specs/Diagnostics.tla says
what there is to say about a document given an index; DiagnosticsMC checks the handler and the delayed
computations of all documents; DiagnosticsGen writes histories, which are replayed in sessions with the
real delay."""
import vf


def run():
    r = vf.Report("C17", "model_checking")
    t = vf.THOROUGH
    r.model(vf.exhaustive("DiagnosticsMC", "DiagnosticsBig.cfg" if t else "DiagnosticsMC.cfg", timeout=900))
    b = vf.build()
    num = 2400 if t else 240
    while num > 0 and not r.violations:
        tr = vf.generate("DiagnosticsGen", "DiagnosticsGen.cfg", min(num, 240), 15, parts=6, timeout=600)
        num -= 240
        m, s = vf.run_harness(b, "diag", tr, jobs=24, timeout=800)
        r.replayed(tr, m, s, keep=1)
        vf.SEED += 7919
    r.assumptions = ["of what is declared several times, either may be said unless all declarations agree",
                     "a delayed computation may see any index there was since the text was last changed",
                     "syntax errors are compared by their line; traits themselves carry no @deprecated; `parent` may be said to be deprecated with its class"]
    return r.finish()
