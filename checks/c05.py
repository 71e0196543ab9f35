import json, os, subprocess
import vf


def run():
    r = vf.Report("C05", "model_checking")
    b = vf.build()
    r.model(vf.exhaustive("Frame", "FrameBig.cfg" if vf.THOROUGH else "FrameMC.cfg", timeout=600))
    tr = vf.generate("FrameGen", "FrameGen.cfg", 120000 if vf.THOROUGH else 12000, 20, parts=6, timeout=900)
    m, s = vf.run_harness(b, "frame", tr, timeout=800)
    r.replayed(tr, m, s)
    runs = 60 if vf.THOROUGH else 8
    for k in range(runs):
        seed = vf.SEED * 1000 + k
        nw, per = [(2, 60), (4, 40), (8, 25), (16, 12)][k % 4]
        f = os.path.join(vf.scratch(), "stress.ndjson")
        p = subprocess.run(["timeout", "120", b, "framestress", f, str(nw), str(per), str(seed)], capture_output=True, text=True)
        res = [json.loads(x[1:]) for x in p.stdout.splitlines() if x.startswith("@")]
        if p.returncode != 0 or not res:
            if p.returncode == 124 or vf.in_repo(p.stderr):
                r.violate({"mismatch": {"what": "concurrent writers hang or crash", "seed": seed, "got": vf.crash_excerpt(p.stderr)}})
                continue
            raise vf.CheckError("framestress: " + p.stderr[-2000:])
        if res[-1]["bad"]:
            r.violate({"mismatch": {"what": "reader: " + res[-1]["bad"], "seed": seed}})
        cfg = vf.write_cfg("FrameTraceRun.cfg", ["SPECIFICATION TSpec", "CONSTANT Writers = {%s}" % ",".join(map(str, range(1, nw + 1))),
                           "CONSTANT PerWriter = %d" % per, "CONSTANT Sizes = {1}", 'CONSTANT TraceFile = "%s"' % f,
                           "INVARIANT WriterOrder", "POSTCONDITION TraceAccepted", "CHECK_DEADLOCK FALSE"])
        ok, txt, n = vf.validate("FrameTrace", cfg, f)
        r.validated += 1
        r.states += n
        r.notes["stress_events"] = r.notes.get("stress_events", 0) + res[-1]["events"]
        if not ok:
            r.violate({"mismatch": {"what": "recorded run of %d concurrent writers is not a behaviour of the specification (first %d events are)" % (nw, n - 1),
                                    "seed": seed, "event": open(f).read().splitlines()[max(0, n - 3):n + 2]}})
    r.assumptions = ["concurrent schedules: sampled, with a transport that yields inside every write",
                     "header names are spelt as the protocol spells them"]
    return r.finish()
