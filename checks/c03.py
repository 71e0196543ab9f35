import vf


def concerns(prop, m):
    """C04: the set of handlers that have begun is not the one of the specification. C03: anything
    else, and a handler that never begins (its request is not answered)."""
    e, g = m.get("expected"), m.get("got")
    if m["what"] == "handlers started out of order":
        return prop == "C04"
    if m["what"] == "observation differs":
        if e["started"] != g["started"]:
            return prop == "C04" or g["started"] < e["started"]
        return prop == "C03"
    if m["what"].startswith(("the process", "Run ")):
        return True
    return prop == "C03"


def rpc(prop):
    r = vf.Report(prop, "model_checking")
    b = vf.build()
    r.model(vf.exhaustive("RpcMC", "RpcMC.cfg"))
    r.model(vf.exhaustive("RpcMC", "RpcLive.cfg"))
    if vf.THOROUGH:
        r.model(vf.exhaustive("RpcMC", "RpcMCBig.cfg", timeout=1500, workers=8))
    n = 40000 if vf.THOROUGH else 2400
    tr = vf.generate("RpcGen", "RpcGen.cfg", n, 80, parts=6, timeout=900)
    m, s = vf.run_harness(b, "rpc", tr, timeout=600)
    m = [x for x in m if concerns(prop, x)]
    r.replayed(tr, m, s)
    r.assumptions = ["handlers follow scripts over par/reply/fail/bad/call", "cancellation through Conn.Cancel (the server wires no $/cancelRequest)",
                     "ids of concurrent requests are distinct", "at most 6 messages and 24 environment steps per replayed behaviour"]
    return r


def run():
    return rpc("C03").finish()
