import vf, sn


def run():
    r = vf.Report("C14", "model_checking")
    r.model(vf.exhaustive("Store", "StoreBig.cfg" if vf.THOROUGH else "StoreMC.cfg", timeout=800))
    for c in ["FoldersTold.cfg", "FoldersBig.cfg"] if vf.THOROUGH else ["FoldersMC.cfg"]:
        r.model(vf.exhaustive("FoldersMC", c, timeout=800))
    b = vf.build()
    t = vf.THOROUGH
    sn.replay(r, b, {("async", False): 3000 if t else 420, ("async", True): 3000 if t else 420})
    r.assumptions = sn.assumptions()
    return r.finish()
