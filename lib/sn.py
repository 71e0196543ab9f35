"""The checks of sessions with workspace folders: sessions generated by SessionGen, replayed on a server."""
import vf


def sessions(profile, num, steps=12):
    cfg = vf.write_cfg("SessionGen-%s.cfg" % profile, ["SPECIFICATION SSpec", "CONSTANT MaxSteps = %d" % steps,
                       'CONSTANT Profile = "%s"' % profile, "CHECK_DEADLOCK FALSE"])
    return vf.generate("SessionGen", cfg, num, steps + 2, parts=6, timeout=800)


def replay(r, b, mix, jobs=24):
    """mix: (profile, slow) -> number of sessions"""
    for (profile, slow), num in mix.items():
        while num > 0 and not r.violations:
            tr = sessions(profile, min(num, 1500))
            num -= 1500
            m, s = vf.run_harness(b, "lsp", tr, extra=["slow"] if slow else [], timeout=800, jobs=jobs)
            r.replayed(tr, m, s, keep=1, ctx={"slow": slow, "profile": profile})
            vf.SEED += 7919


def assumptions():
    return ["the workspace has six paths in nested and like-named folders; files are of the fragment of PHP in specs/Php.tla",
            "documents are opened in an open folder only, and a folder with an open document is removed only when another one encloses it",
            "the client spells the URI of a document it opens always the same way (its reports of files use other spellings too)",
            "a server is started with one folder at least"]
