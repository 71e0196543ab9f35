"""Shared machinery of the checks: build the harness from /repo's working tree,
run TLC (exhaustive / generating / trace-validating), replay behaviours through
the harness, and report.

Verdicts come only from the behaviour of the real code: a violated invariant of
the *model*, a TLC error or a dead driver is an error of the check (exit 2)."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, glob, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"


class CheckError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOPATH="/root/go", GOCACHE="/root/.cache/go-build")
    e.setdefault("HOME", "/root")
    return e


CRASH_HOOK = """
// Added by the verification harness: the process kills itself at the armed write.
var verifArmed, verifHalf = int64(0), false

func VerifArm(n int64, half bool) { verifHalf = half; atomic.StoreInt64(&verifArmed, n) }

func verifDue() bool { return atomic.LoadInt64(&verifArmed) > 0 && atomic.AddInt64(&verifArmed, -1) == 0 }

func verifDie() { syscall.Kill(os.Getpid(), syscall.SIGKILL); select {} }

func (fw *fileWrap) Write(p []byte) (int, error) {
	if verifDue() {
		if verifHalf && fw.fd.Type == TypeJournal {
			fw.File.Write(p[:len(p)/2])
		}
		verifDie()
	}
	return fw.File.Write(p)
}
"""


def crash_module():
    """A copy of the storage engine the repository uses whose writes can kill the process."""
    r = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/syndtr/goleveldb"], cwd=REPO,
                       env=goenv(), capture_output=True, text=True)
    src = r.stdout.strip()
    if r.returncode != 0 or not os.path.isdir(src):
        raise CheckError("storage engine not found: " + r.stderr[-500:])
    dst = os.path.join(scratch(), "goleveldb")
    shutil.copytree(src, dst)
    subprocess.run(["chmod", "-R", "u+w", dst], check=True)
    p = os.path.join(dst, "leveldb/storage/file_storage.go")
    t = open(p).read()
    t = t.replace('\t"sync"\n', '\t"sync"\n\t"sync/atomic"\n\t"syscall"\n', 1)
    for f in ("Remove(fd FileDesc) error {\n", "Rename(oldfd, newfd FileDesc) error {\n", "setMeta(fd FileDesc) error {\n"):
        i = t.index("func (fs *fileStorage) " + f) + len("func (fs *fileStorage) " + f)
        t = t[:i] + "\tif verifDue() {\n\t\tverifDie()\n\t}\n" + t[i:]
    open(p, "w").write(t + CRASH_HOOK)
    mod = os.path.join(scratch(), "crash.mod")
    t = open(REPO + "/go.mod").read()
    open(mod, "w").write(t + "\nreplace github.com/syndtr/goleveldb => %s\n" % dst)
    shutil.copy(REPO + "/go.sum", os.path.join(scratch(), "crash.sum"))
    return mod


def build(crash=False, race=False):
    """Builds the harness out of tree: its files and the small stub set are laid over
    /repo by 'go build -overlay'. -ldflags=-w: the resource loader the repository depends on
    (go.rice -> zipexe) panics on the DWARF sections of this toolchain's executables."""
    out = os.path.join(scratch(), "vh" + ("-crash" if crash else "") + ("-race" if race else ""))
    rep = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.go"))):
        rep["%s/internal/verifharness/%s" % (REPO, os.path.basename(f))] = f
    rep[REPO + "/stub/phpstorm.go"] = os.path.join(VERIF, "harness", "overlay", "phpstorm.go")
    ov = os.path.join(scratch(), "overlay.json")
    with open(ov, "w") as fh:
        json.dump({"Replace": rep}, fh)
    extra = (["-modfile", crash_module(), "-tags", "verifcrash"] if crash else []) + (["-race"] if race else [])
    with timed("build"):
        r = subprocess.run(["go", "build", "-buildvcs=false", "-ldflags=-w", "-overlay", ov] + extra + ["-o", out,
                            "./internal/verifharness"], cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("harness does not build:\n" + r.stderr[-4000:])
    return out


# ---------------------------------------------------------------- TLC

def _tlc(args, cwd, timeout, heap="6g", props=()):
    meta = tempfile.mkdtemp(prefix="meta-", dir=scratch())
    cmd = ["timeout", "-k", "10", str(int(timeout)), "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"] + list(props) + [
        "-cp", JAR, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE"] + args
    outp = os.path.join(meta, "out.txt")
    with open(outp, "w") as fh:
        rc = subprocess.run(cmd, cwd=cwd, stdout=fh, stderr=subprocess.STDOUT).returncode
    with open(outp, errors="replace") as fh:
        txt = fh.read()
    shutil.rmtree(meta, True)
    return rc, txt


def specdir():
    """A private copy of the specs, so that generated configs and traces stay out of /verif."""
    d = os.path.join(scratch(), "specs")
    if not os.path.isdir(d):
        shutil.copytree(os.path.join(VERIF, "specs"), d)
    return d


def write_cfg(name, lines):
    p = os.path.join(specdir(), name)
    with open(p, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    return name


def consts(d):
    out = []
    for k, v in d.items():
        out.append("CONSTANT %s = %s" % (k, tla(v)))
    return out


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    raise ValueError(v)


import contextlib


@contextlib.contextmanager
def timed(what):
    t = time.time()
    yield
    if os.environ.get("VF_TIME"):
        print("  %s: %.1fs" % (what, time.time() - t), file=sys.stderr)


def exhaustive(module, cfg, timeout=300, workers=6, coverage=False):
    """Model-checks a design specification. Returns counts; a violation is an error of ours."""
    args = ["-workers", str(workers), "-config", cfg]
    if coverage:
        args += ["-coverage", "1"]
    t = time.time()
    with timed(cfg):
        rc, txt = _tlc(args + [module + ".tla"], specdir(), timeout)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
    if rc != 0 or "No error has been found" not in txt or not m:
        raise CheckError("TLC on %s/%s: rc=%s\n%s" % (module, cfg, rc, txt[-3000:]))
    gen, dist = [int(x.replace(",", "")) for x in m[-1]]
    return {"module": module, "config": cfg, "transitions": gen, "states": dist,
            "wall_s": round(time.time() - t, 1)}


def generate(module, cfg, num, depth, seed=None, timeout=300, parts=1):
    """Random behaviours of a generator module: each completed behaviour is printed
    by the module as one "@@<json>" line. Runs `parts` TLC processes side by side."""
    seed = SEED if seed is None else seed
    from concurrent.futures import ThreadPoolExecutor
    specdir()

    def one(k):
        n = num // parts + (1 if k < num % parts else 0)
        if n == 0:
            return []
        rc, txt = _tlc(["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(seed * 1000 + k),
                        "-workers", "1", "-config", cfg, module + ".tla"], specdir(), timeout, heap="3g")
        res = []
        for line in txt.splitlines():
            if line.startswith('"@@'):
                res.append(json.loads(json.loads(line)[2:]))
        if rc != 0 or not res:
            raise CheckError("TLC simulate %s/%s: rc=%s, %d behaviours\n%s" % (module, cfg, rc, len(res), txt[-3000:]))
        return res
    with timed("generate " + cfg), ThreadPoolExecutor(parts) as ex:
        out = [b for bs in ex.map(one, range(parts)) for b in bs]
    seen, uniq = set(), []
    for b in out:
        h = hashlib.sha1(json.dumps(b, sort_keys=True).encode()).hexdigest()
        if h not in seen:
            seen.add(h)
            uniq.append(b)
    return uniq


def enumerate_states(module, cfg, timeout=300, workers=6):
    """Exhaustive run of a module that prints one "@@<json>" line per state of interest."""
    rc, txt = _tlc(["-workers", str(workers), "-config", cfg, module + ".tla"], specdir(), timeout)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
    if rc != 0 or "No error has been found" not in txt or not m:
        raise CheckError("TLC on %s/%s: rc=%s\n%s" % (module, cfg, rc, txt[-3000:]))
    res = []
    for line in txt.splitlines():
        if line.startswith('"@@'):
            res.append(json.loads(json.loads(line)[2:]))
    gen, dist = [int(x.replace(",", "")) for x in m[-1]]
    return res, {"module": module, "config": cfg, "transitions": gen, "states": dist}


def validate(module, cfg, trace_file, timeout=300, dfs=False):
    """Checks a recorded trace (ndjson, TRACE constant in the cfg points at it).
    Returns (accepted, text, states)."""
    props = ["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []
    rc, txt = _tlc(["-workers", "1", "-config", cfg, module + ".tla"], specdir(), timeout, props=props)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
    dist = int(m[-1][1].replace(",", "")) if m else 0
    if "No error has been found" in txt and rc == 0:
        return True, txt, dist
    if "TraceAccepted" in txt or "is violated" in txt or "PostCondition" in txt.replace(" ", "").title():
        return False, txt, dist
    raise CheckError("TLC trace validation %s: rc=%s\n%s" % (module, rc, txt[-3000:]))


# ---------------------------------------------------------------- harness

def run_harness(binary, sub, traces, extra=None, timeout=600, jobs=6, env=None, per_trace=False):
    """Replays behaviours through the real code, split over `jobs` processes.
    Returns (mismatches, summaries). A process that dies is re-run one trace at a time:
    a trace that kills it again is a mismatch (the code crashed on it)."""
    from concurrent.futures import ThreadPoolExecutor
    chunks = [[] for _ in range(max(1, min(jobs, len(traces))))]
    for i, t in enumerate(traces):
        chunks[i % len(chunks)].append((i, t))

    def go(items, tmo):
        d = tempfile.mkdtemp(prefix="run-", dir=scratch())
        inp = os.path.join(d, "in.json")
        with open(inp, "w") as fh:
            for i, t in items:
                fh.write(json.dumps({"n": i, "t": t}) + "\n")
        home = os.path.join(d, "home")
        os.mkdir(home)
        e = dict(os.environ)
        e.update(HOME=home, VH_DIR=d, VERIF_SEED=str(SEED), GOTRACEBACK="all", GODEBUG="")
        if env:
            e.update(env)
        p = subprocess.Popen(["timeout", "-k", "5", str(int(tmo)), binary, sub, inp] + (extra or []), cwd=d, env=e,
                             stdout=open(d + "/out", "w"), stderr=open(d + "/err", "w"))
        rc = p.wait()
        mism, summ, last = [], None, None
        for line in open(d + "/out", errors="replace"):
            if not line.startswith("@"):
                continue
            try:
                o = json.loads(line[1:])
            except ValueError:
                continue
            if "done" in o:
                summ = o
            elif "at" in o:
                last = o["at"]
            else:
                mism.append(o)
        err = open(d + "/err", errors="replace").read()
        shutil.rmtree(d, True)
        return rc, mism, summ, last, err

    allm, summs = [], []

    def work(items):
        rc, mism, summ, last, err = go(items, timeout)
        if rc == 0 and summ is not None:
            return mism, [summ]
        if rc == 124 and len(items) > 1 and last is None:
            raise CheckError("harness %s timed out before its first trace\n%s" % (sub, err[-2000:]))
        # died: which trace?
        if last is None:
            raise CheckError("harness %s died (rc=%s) before its first trace\n%s" % (sub, rc, err[-3000:]))
        bad = [it for it in items if it[0] == last]
        rest = [it for it in items if it[0] > last]
        res_m, res_s = list(mism), []
        rc2, m2, s2, _, err2 = go(bad, min(timeout, 180))
        if rc2 == 0 and s2 is not None:
            # not reproduced alone: keep what it says, but do not call it a crash
            rc3, m3, s3, l3, err3 = go([it for it in items if it[0] <= last], timeout)
            if in_repo(err):
                rc3, err3 = rc, err
            elif rc3 == 0 and s3 is not None:
                raise CheckError("harness %s died (rc=%s) on trace %s, not reproducible\n%s" % (sub, rc, last, err[-3000:]))
            rc2, err2 = rc3, err3
        tail = crash_excerpt(err2)
        res_m.append({"n": last, "step": -1, "what": "the process %s" % ("hung" if rc2 == 124 else "died (rc=%d)" % rc2),
                      "expected": "the code survives the behaviour", "got": tail})
        if rest and len(res_m) < 5:
            m3, s3 = work(rest)
            res_m += m3
            res_s += s3
        return res_m, res_s
    with timed("replay " + sub), ThreadPoolExecutor(len(chunks)) as ex:
        for m, s in ex.map(work, chunks):
            allm += m
            summs += s
    allm.sort(key=lambda o: (o.get("n", 0), o.get("step", 0)))
    return allm, summs


def in_repo(err):
    """Whether the goroutine that crashed was executing the repository's own code."""
    ex = crash_excerpt(err)
    if not (ex.startswith("panic:") or ex.startswith("fatal error:")):
        return False
    blocks = re.split(r"\n\n(?=goroutine )", ex)
    top = blocks[1] if len(blocks) > 1 else blocks[0]
    frames = re.findall(r"\n\t(/\S+):\d+", top)
    for f in frames:
        if f.startswith(REPO + "/"):
            return "/verifharness/" not in f
    return False


def crash_excerpt(err):
    for pat in ("panic:", "fatal error:", "log.Fatal"):
        i = err.find(pat)
        if i >= 0:
            return err[i:i + 2500]
    return err[-1800:]


# ---------------------------------------------------------------- findings and reports

def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                m = re.match(r"KNOWN-FINDING: property=\S+ \[(\S+)\] (.*)", line)
                if m:
                    res.append((m.group(1), m.group(2)))
    return res


class Report:
    def __init__(self, prop, level):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.cov, self.assumptions, self.violations = {}, [], []
        self.states = self.transitions = self.validated = 0
        self.samples, self.notes, self.models = [], {}, []
        self.known_hit = {}

    def model(self, r):
        self.models.append(r)
        self.states += r["states"]
        self.transitions += r["transitions"]

    def replayed(self, traces, mism, summs, keep=2, ctx=None, known=None):
        """Accounts replayed behaviours; `known` maps a mismatch to the id of a listed finding, or None."""
        self.validated += len(traces)
        for t in traces[:keep]:
            self.samples.append(t)
        steps = {}
        for s in summs:
            for k, v in s.items():
                if isinstance(v, int) and not isinstance(v, bool):
                    steps[k] = steps.get(k, 0) + v
        for k, v in steps.items():
            self.notes[k] = self.notes.get(k, 0) + v
        for m in mism:
            kf = known(m) if known else None
            if kf:
                self.known_hit.setdefault(kf, m)
                continue
            t = traces[m["n"]] if 0 <= m.get("n", -1) < len(traces) else None
            self.violate({"mismatch": m, "behaviour": t, "context": ctx})

    def violate(self, obj):
        self.violations.append(obj)

    def finish(self):
        kf = known_findings(self.prop)
        for kid, text in kf:
            print("KNOWN-FINDING: property=%s [%s] %s" % (self.prop, kid, text))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "samples": self.samples[:4], "models": self.models}
        cov.update(self.cov)
        cov["counters"] = self.notes
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if self.violations:
            od = os.path.join(VERIF, "out")
            os.makedirs(od, exist_ok=True)
            p = os.path.join(od, "%s-%d.json" % (self.prop, SEED))
            with open(p, "w") as fh:
                json.dump(self.violations[:10], fh, indent=1)
            for v in self.violations[:3]:
                print(json.dumps(v.get("mismatch", v))[:1500])
            print("%d mismatches" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("OK property=%s states=%d traces=%d %s wall=%.1fs" % (
            self.prop, self.states, self.validated, json.dumps(self.notes), time.time() - self.t0))
        return 0
