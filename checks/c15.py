import vf


def decl(n, k, mem=(), ext=(), impl=(), use=(), low=False):
    return {"n": n, "k": k, "ext": list(ext), "impl": list(impl), "use": list(use), "file": 1, "low": low,
            "mem": [{"k": a, "n": b, "vis": c, "st": False, "up": False} for a, b, c in mem]}


def access(c, f, t, ok):
    return {"c": c, "f": f, "t": t, "closure": False, "anon": False,
            "ans": [{"k": "m", "n": "ma", "a": {"ok": [ok], "must": True}}]}


# what is known not to work; see known-findings.txt
KNOWN = {
    "interface-case": {"anycase": True, "world": [decl("A", "interface", [("m", "ma", "public")]), decl("B", "class", impl=["A"], low=True)],
                       "acc": [access(2, "this", "B", [1, 1])]},
    "trait-in-trait": {"world": [decl("A", "trait", [("m", "ma", "public")]), decl("B", "trait", use=["A"]), decl("C", "class", use=["B"])],
                       "acc": [access(3, "this", "C", [1, 1])]},
}


def run():
    r = vf.Report("C15", "model_checking")
    t = vf.THOROUGH
    r.model(vf.exhaustive("MembersMC", "MembersBig.cfg" if t else "MembersMC.cfg", timeout=1800))
    b = vf.build()
    num = 9000 if t else 1500
    while num > 0 and not r.violations:
        tr = vf.generate("MembersGen", "MembersGen.cfg", min(num, 3000), 3, parts=6, timeout=600)
        num -= 3000
        m, s = vf.run_harness(b, "members", tr, timeout=800, jobs=12)
        r.replayed(tr, m, s, keep=1)
        vf.SEED += 7919
    ids = sorted(KNOWN)
    tr = [KNOWN[i] for i in ids]
    m, s = vf.run_harness(b, "members", tr, jobs=1)
    r.replayed(tr, m, [], keep=0, known=lambda x: ids[x["n"]] if 0 <= x.get("n", -1) < len(ids) else None)
    r.assumptions = ["a class extends classes, uses traits and implements interfaces (mostly: about one reference in twelve is of another kind)",
                     "interfaces and traits are written in the letter case they are declared in, and traits do not use traits (known findings)",
                     "types are written fully qualified (names are C09's and C10's)"]
    return r.finish()
