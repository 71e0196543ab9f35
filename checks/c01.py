import vf


def run():
    r = vf.Report("C01", "model_checking")
    b = vf.build()
    r.model(vf.exhaustive("Text", "TextBig.cfg" if vf.THOROUGH else "TextMC.cfg", timeout=600))
    tr = vf.generate("TextGen", "TextGen.cfg", 60000 if vf.THOROUGH else 4000, 12, parts=6, timeout=800)
    m, s = vf.run_harness(b, "text", tr, timeout=800)
    r.replayed(tr, m, s, keep=1)
    return r.finish()
