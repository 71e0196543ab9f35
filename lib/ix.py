"""The checks of the index: histories generated by IndexGen, replayed on a Store."""
import vf

QUICK, THOROUGH = 1440, 9000


def behaviours(profile, num, steps=12):
    cfg = vf.write_cfg("IndexGen-%s.cfg" % profile, ["SPECIFICATION GSpec", "CONSTANT MaxSteps = %d" % steps,
                       'CONSTANT Profile = "%s"' % profile, "CHECK_DEADLOCK FALSE"])
    return vf.generate("IndexGen", cfg, num, steps + 2, parts=6, timeout=800)


def run(prop, profiles, kinds, crash=False):
    """profiles: name -> share of the behaviours"""
    r = vf.Report(prop, "model_checking")
    r.model(vf.exhaustive("Store", "StoreBig.cfg" if vf.THOROUGH else "StoreMC.cfg", timeout=800))
    b = vf.build(crash=crash)
    total = THOROUGH if vf.THOROUGH else QUICK
    if crash:
        total //= 2
    for p, share in profiles.items():
        left = int(total * share)
        while left > 0:
            tr = behaviours(p, min(left, 900))
            left -= 900
            m, s = vf.run_harness(b, "crash" if crash else "index", tr, extra=kinds, timeout=800)
            r.replayed(tr, m, s, keep=1)
            if r.violations:
                break
            vf.SEED += 7919
    r.assumptions = ["the workspace has six paths in nested and like-named folders; files are of the fragment of PHP in specs/Php.tla",
                     "documents are handed to the Store as the server's handlers do; their concurrency is C14's"]
    return r.finish()
