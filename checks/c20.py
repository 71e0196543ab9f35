import vf


def run():
    r = vf.Report("C20", "model_checking")
    b = vf.build()
    r.model(vf.exhaustive("OrdMap", "OrdMapMC.cfg"))
    if vf.THOROUGH:
        r.model(vf.exhaustive("OrdMap", "OrdMapBig.cfg", timeout=600))
    tr = vf.generate("OrdMapGen", "OrdMapGen.cfg", 30000 if vf.THOROUGH else 2400, 60, parts=6, timeout=700)
    m, s = vf.run_harness(b, "storage", tr, timeout=800)
    r.replayed(tr, m, s, keep=1)
    r.assumptions = ["histories are sequential: one operation at a time on a back end",
                     "keys over four bytes (00, a, b, ff) of length 0..4, values of length 0 to 5000"]
    return r.finish()
