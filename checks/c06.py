import vf


def sessions(profile, num):
    cfg = vf.write_cfg("LifecycleGen-%s.cfg" % profile, ["SPECIFICATION GSpec", "CONSTANT MaxSteps = 40", 'CONSTANT Profile = "%s"' % profile, "CHECK_DEADLOCK FALSE"])
    return vf.generate("LifecycleGen", cfg, num, 43, parts=6, timeout=600)


def run():
    r = vf.Report("C06", "model_checking")
    t = vf.THOROUGH
    r.model(vf.exhaustive("Lifecycle", "LifecycleMC.cfg"))
    b = vf.build()
    for profile, num in (("work", 12000 if t else 900), ("wild", 4000 if t else 300)):
        while num > 0 and not r.violations:
            tr = sessions(profile, min(num, 2000))
            num -= 2000
            m, s = vf.run_harness(b, "life", tr, jobs=24, timeout=1200)
            r.replayed(tr, m, s, keep=1)
            vf.SEED += 7919
    r.assumptions = ["the client reads what the server writes, answers its requests, and frames its own messages as JSON-RPC objects (C02-C05 have the transport)",
                     "an answer takes no more than 60 s, the documents are of some kilobytes at most",
                     "documents nested so deeply that a recursive descent exhausts the stack are not tried"]
    return r.finish()
