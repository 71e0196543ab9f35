import vf, sn


def run():
    r = vf.Report("C13", "model_checking")
    for c in ["FoldersTold.cfg", "FoldersBig.cfg"] if vf.THOROUGH else ["FoldersMC.cfg"]:
        r.model(vf.exhaustive("FoldersMC", c, timeout=800))
    b = vf.build()
    t = vf.THOROUGH
    sn.replay(r, b, {("folders", False): 3000 if t else 420, ("churn", True): 3000 if t else 420, ("churn", False): 1500 if t else 180})
    r.assumptions = sn.assumptions()
    return r.finish()
