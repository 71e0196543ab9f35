"""C02: places. specs/Text.tla says where an offset is; PlacesMC checks constructs, the outline and
what is at a character through edits; PlacesGen writes documents in which every construct is marked,
and edits, which are made in the server: the outline, what is at the places of all uses and not in
comments, and the references of all declarations are compared."""
import vf


def run():
    r = vf.Report("C02", "model_checking")
    t = vf.THOROUGH
    r.model(vf.exhaustive("PlacesMC", "PlacesBig.cfg" if t else "PlacesMC.cfg", timeout=900))
    b = vf.build()
    num = 8000 if t else 1200
    while num > 0 and not r.violations:
        tr = vf.generate("PlacesGen", "PlacesGen.cfg", min(num, 900), 6, parts=6, timeout=600)
        num -= 900
        m, s = vf.run_harness(b, "places", tr, jobs=8, timeout=1200)
        r.replayed(tr, m, s, keep=1)
        vf.SEED += 7919
    r.assumptions = ["documents which the parser reports syntax errors in are left out (they are counted as unparsed)",
                     "names in the outline are compared without their namespace and dollar sign",
                     "references to members go by the name of the member; diagnostics' ranges are compared by C17 and C19"]
    return r.finish()
