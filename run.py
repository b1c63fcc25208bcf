#!/usr/bin/env python3
"""Orchestrator of the monitoring checks: builds the monitors against /repo's current tree, runs the
workloads, collects verdicts, matches known findings and writes evidence.

  run.py <ID>                 run the check of one property (VERIF_SEED, VERIF_TIER from the environment)
  run.py <ID> --replay FILE   re-execute one recorded violation
"""
import sys, os, json, time, hashlib, subprocess, threading, tempfile, shutil, re, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JOBS = int(os.environ.get("VERIF_JOBS", 0)) or min(8, os.cpu_count() or 1)
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
ONLY = os.environ.get("VERIF_ONLY")      # self-assessment: restrict a check to builds whose label matches
sys.path.insert(0, VERIF)

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0:symbolize=1"
ENV["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0:exitcode=98"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:second_deadlock_stack=0"
ENV["MSAN_OPTIONS"] = "exitcode=96:halt_on_error=1"

class CheckError(Exception):
    pass

class Build:
    """One monitored executable: a harness source compiled for one container/configuration."""
    def __init__(self, label, src, defs=(), compiler="clang++", std="c++17", opt="-O0", san="address", extra=(), runs=(), libs=()):
        self.label, self.src, self.defs, self.compiler, self.std = label, src, list(defs), compiler, std
        self.opt, self.san, self.extra, self.runs, self.libs = opt, san, list(extra), list(runs), list(libs)
    def cmd(self, out):
        c = [self.compiler, "-std=" + self.std] + self.opt.split()
        c += ["-g1", "-fno-omit-frame-pointer"]
        if self.compiler.startswith("clang"):
            c += ["-Wno-everything", "-ferror-limit=5"]
        else:
            c += ["-w", "-fmax-errors=5"]
        if self.san:
            c += ["-fsanitize=" + self.san, "-fno-sanitize-recover=all"]
        c += ["-D" + d for d in self.defs] + self.extra
        c += ["-I" + os.path.join(REPO, "include"), "-I" + H, os.path.join(H, self.src), "-o", out] + self.libs
        return c
    def spec(self):
        return {"label": self.label, "src": self.src, "defs": self.defs, "compiler": self.compiler, "std": self.std,
                "opt": self.opt, "san": self.san, "extra": self.extra, "libs": self.libs}

class Run:
    """One execution of a build: number of cases, shards, extra arguments."""
    def __init__(self, cases, thorough=None, shards=1, args=(), timeout=240, tshards=8):
        self.cases, self.thorough, self.shards, self.args, self.timeout, self.tshards = cases, thorough or cases * 10, shards, list(args), timeout, tshards

_tree_hash = None
def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for base in (os.path.join(REPO, "include"), H):
            for d, _, fs in sorted(os.walk(base)):
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
        _tree_hash = h.hexdigest()
    return _tree_hash

def compile_build(b):
    """returns (path, None) or (None, error text)"""
    os.makedirs(BUILD, exist_ok=True)
    key = hashlib.sha256((tree_hash() + json.dumps(b.cmd("X"))).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "%s-%s" % (re.sub(r"[^A-Za-z0-9_]", "_", b.label), key))
    if os.path.exists(out):
        return out, None
    tmp = out + ".tmp%d" % os.getpid()
    for attempt in (1, 2):
        p = subprocess.run(b.cmd(tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, errors="replace")
        if p.returncode == 0:
            os.replace(tmp, out)
            return out, None
        if "error:" in p.stdout and "terminated" not in p.stdout and "Killed" not in p.stdout:
            break
    return None, p.stdout[-3000:]

def clean_build_cache():
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        tot = sum(os.path.getsize(f) for f in fs)
        if tot > 3e9:
            for f in sorted(fs, key=os.path.getmtime)[:len(fs) * 2 // 3]:
                os.unlink(f)
    except OSError:
        pass

# ---------------------------------------------------------------------------------------------
def parse_status(path):
    try:
        raw = open(path, "rb").read()
        case = int.from_bytes(raw[0:8], "little"); step = int.from_bytes(raw[8:16], "little")
        op = raw[16:112].split(b"\0")[0].decode(errors="replace")
        return case, step, op
    except OSError:
        return -1, 0, "?"

def classify(rc, out, status):
    """(kind, msg) of a run that did not end normally, or None when the harness itself failed"""
    case, step, op = parse_status(status)
    m = re.search(r"^VF-FAIL (\{.*\})$", out, re.M)
    if m:
        try:
            d = json.loads(m.group(1))
        except ValueError:
            d = {"cont": "?", "op": op, "kind": "unparsable", "case": case, "msg": m.group(1)[:300], "log": ""}
        return d
    d = {"cont": "", "op": op, "case": case, "log": ""}
    m = re.search(r"ERROR: (?:Address|Leak)Sanitizer: ([A-Za-z0-9-]+)", out)
    if m:
        s = re.search(r"SUMMARY: .*", out)
        d["kind"] = "asan:" + m.group(1); d["msg"] = s.group(0)[:400] if s else ""
        return d
    m = re.search(r"WARNING: (Thread|Memory)Sanitizer: ([^(\n]*)", out)
    if m:
        s = re.search(r"SUMMARY: .*", out)
        d["kind"] = m.group(1).lower()[0] + "san:" + m.group(2).strip().replace(" ", "-"); d["msg"] = s.group(0)[:400] if s else ""
        return d
    m = re.search(r"(\S+): runtime error: (.*)", out)
    if m:
        t = re.sub(r"0x[0-9a-f]+|\d+", "#", m.group(2))[:60].strip().replace(" ", "-")
        d["kind"] = "ubsan:" + t; d["msg"] = m.group(0)[:400]
        return d
    m = re.search(r"Assertion [`'](.*)' failed", out) or re.search(r"Assertion (.*) failed", out)
    if m:
        d["kind"] = "assert"; d["msg"] = out.strip()[-400:]
        return d
    if "terminate called" in out or "terminating" in out:
        d["kind"] = "terminate"; d["msg"] = out.strip()[-400:]
        return d
    if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT, signal.SIGTRAP):
        d["kind"] = "signal:%d" % -rc; d["msg"] = out.strip()[-400:]
        return d
    return None

def run_proc(cmd, timeout, cwd=None):
    """run with output captured; returns (rc, out, timed_out)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return -9, out.decode(errors="replace"), True

class Result:
    def __init__(self):
        self.lock = threading.Lock()
        self.violations = []     # dicts
        self.ops = self.cases = self.checks = 0
        self.counters = {}
        self.samples = []
        self.distinct = {}       # label -> int bitmap
        self.errors = []
        self.runs = 0

class Known:
    """known findings: lines 'known: property=<id> key=<cont>/<op>/<kind> [case-insensitive note]'"""
    def __init__(self, pid):
        self.keys = {}
        self.printed = set()
        try:
            for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
                m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
                if m and m.group(1) == pid:
                    self.keys[m.group(2)] = m.group(3).strip()
        except OSError:
            pass
    def match(self, key):
        return self.keys.get(key)

def vkey(v):
    return "%s/%s/%s" % (v.get("cont") or v.get("label"), re.sub(r"\s+", "_", v.get("op", "?")), v["kind"])

def exec_run(pid, b, path, run, shard, nshards, tier, seed, res, known, tmpdir, stop):
    cases = run.cases if tier == "quick" else run.thorough
    uid = "%s-%d-%s" % (re.sub(r"[^A-Za-z0-9_]", "_", b.label), shard, hashlib.md5(repr(run.args).encode()).hexdigest()[:6])
    status, bm = os.path.join(tmpdir, uid + ".st"), os.path.join(tmpdir, uid + ".bm")
    base = [path, "--seed", str(seed), "--status", status, "--out", bm] + (["--thorough"] if tier == "thorough" else []) + run.args
    start, n_known = 0, 0
    while not stop.is_set():
        cmd = base + ["--cases", str(cases), "--from", str(start), "--shard", str(shard), str(nshards)]
        tmo = run.timeout if tier == "quick" else run.timeout * 20
        rc, out, to = run_proc(cmd, tmo, cwd=tmpdir)
        with res.lock:
            res.runs += 1
        m = re.search(r"^VF-STATS (\{.*\})$", out, re.M)
        if rc == 0 and m and not to:
            st = json.loads(m.group(1))
            with res.lock:
                res.ops += st["ops"]; res.cases += st["cases"]; res.checks += st["checks"]
                for k, v in st["counters"].items():
                    res.counters[k] = res.counters.get(k, 0) + v
                if len(res.samples) < 8:
                    res.samples += ["%s %s" % (b.label, s) for s in st["samples"][:1]]
                if os.path.exists(bm):
                    x = int.from_bytes(open(bm, "rb").read(), "little")
                    res.distinct[b.label] = res.distinct.get(b.label, 0) | x
            return
        if to:
            case, step, op = parse_status(status)
            rc2, out2, to2 = run_proc(base + ["--only", str(case)], 90, cwd=tmpdir)   # one case takes milliseconds
            if to2:
                v = {"cont": "", "op": op, "case": case, "kind": "hang", "msg": "case does not terminate (90 s for one case, reproduced)", "log": ""}
            elif rc2 == 0:
                with res.lock:
                    res.errors.append("inconclusive: %s timed out after %ss at case %d, which passes alone" % (b.label, tmo, case))
                return
            else:
                v = classify(rc2, out2, status)
        else:
            v = classify(rc, out, status)
        if v is None:
            with res.lock:
                res.errors.append("harness error: %s rc=%s: %s" % (b.label, rc, out[-800:]))
            return
        v["label"] = b.label; v["build"] = b.spec(); v["seed"] = seed; v["args"] = run.args; v["tier"] = tier
        if not v.get("cont"):
            v["cont"] = b.label
        v["output"] = out[-4000:]
        k = vkey(v)
        note = known.match(k)
        with res.lock:
            v["known"] = note
            res.violations.append(v)
        n_known += 1
        if note is None or n_known > 200:
            return
        start = int(v["case"]) + 1
        if start >= cases:
            return

def run_check(pid, tier, seed, spec):
    t0 = time.time()
    res, known, stop = Result(), Known(pid), threading.Event()
    tmpdir = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    compile_fail = []
    try:
        with ThreadPoolExecutor(JOBS) as ex, ThreadPoolExecutor(64) as outer:
            def one(b):
                path, err = ex.submit(compile_build, b).result()
                if path is None:
                    with res.lock:
                        compile_fail.append((b, err))
                    return
                fs = []
                for r in b.runs:
                    n = r.shards if tier == "quick" else max(r.shards, r.tshards)
                    for s in range(n):
                        fs.append(ex.submit(exec_run, pid, b, path, r, s, n, tier, seed, res, known, tmpdir, stop))
                for f in fs:
                    f.result()
            list(outer.map(one, spec["builds"]))
        post = spec.get("post")
        if post:
            post(res, tmpdir, tier, seed)
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
        clean_build_cache()
    return conclude(pid, tier, seed, spec, res, known, compile_fail, t0)

def conclude(pid, tier, seed, spec, res, known, compile_fail, t0):
    evdir = EVIDENCE
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    for b, err in compile_fail:
        if spec.get("compile_is_violation"):
            res.violations.append({"cont": b.label, "op": "compile", "kind": "does-not-compile", "case": 0, "msg": err[-600:], "log": "",
                                   "label": b.label, "build": b.spec(), "seed": seed, "args": [], "tier": tier, "known": known.match("%s/compile/does-not-compile" % b.label), "output": err})
        else:
            res.errors.append("build of %s failed:\n%s" % (b.label, err))
    new, old = {}, {}
    for v in res.violations:
        (old if v["known"] is not None else new).setdefault(vkey(v), v)
    distinct = sum(bin(x).count("1") for x in res.distinct.values())
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"],
          "coverage": {"evaluations": res.ops, "distinct_nontrivial": distinct, "rule": spec["rule"],
                       "samples": res.samples[:8], "cases": res.cases, "oracle_checks": res.checks, "processes": res.runs,
                       "builds": [b.label for b in spec["builds"]], "observed": dict(sorted(res.counters.items()))},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if spec["level"] == "other":
        ev["coverage"]["explanation"] = spec["rule"]
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, v in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, v["known"]))
    for i, (k, v) in enumerate(sorted(new.items())[:10]):
        rp = os.path.join(evdir, "replays", "%s-%d.json" % (pid, i))
        v["property"] = pid; v["key"] = k
        with open(rp, "w") as f:
            json.dump(v, f, indent=1)
        print("violation: %s  case %s: %s" % (k, v["case"], v.get("msg", "")[:300].replace("\n", " ")))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    print("%s %s seed=%d: %d operations, %d cases, %d distinct situations, %d oracle checks, %d violation(s), %.1f s"
          % (pid, tier, seed, res.ops, res.cases, distinct, res.checks, len(new), time.time() - t0))
    if new:
        return 1
    if res.errors:
        for e in res.errors[:5]:
            print("ERROR: " + e)
        return 2
    if spec.get("require"):
        for k, n in spec["require"].items():
            if res.counters.get(k, 0) < n:
                print("ERROR: monitor observed too little: %s = %d < %d" % (k, res.counters.get(k, 0), n))
                return 2
    if res.ops == 0 or res.checks == 0:
        print("ERROR: nothing observed")
        return 2
    return 0

def replay(pid, path):
    v = json.load(open(path))
    s = v["build"]
    b = Build(s["label"], s["src"], s["defs"], s["compiler"], s["std"], s["opt"], s["san"], s["extra"], (), s["libs"])
    p, err = compile_build(b)
    if p is None:
        print(err); print("VIOLATION property=%s replay=%s" % (pid, path)); return 1
    if v["kind"] == "does-not-compile":
        print("replay: compiles"); return 0
    if "build2" in v:    # two configurations that must agree
        import checks
        s = v["build2"]
        b2 = Build(s["label"], s["src"], s["defs"], s["compiler"], s["std"], s["opt"], s["san"], s["extra"], (), s["libs"])
        c = checks.spec(pid, "quick")["compare"](b, b2, v["case"], v["tier"], v["seed"])
        if c is None:
            print("replay: no violation"); return 0
        print("\n".join(c[2])); print("replay: %s: %s" % (c[0], c[1]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    with tempfile.TemporaryDirectory() as td:
        st = os.path.join(td, "st")
        rc, out, to = run_proc([p, "--seed", str(v["seed"]), "--status", st, "--only", str(v["case"]), "--trace"] + (["--thorough"] if v["tier"] == "thorough" else []) + v["args"], 120, cwd=td)
        print(out[-6000:])
        if rc == 0 and not to:
            print("replay: no violation"); return 0
        d = classify(rc, out, st) or {"kind": "hang" if to else "error", "op": "?", "cont": ""}
        print("replay: %s %s" % (d["kind"], d.get("op")))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1

def main():
    import checks
    pid = sys.argv[1]
    if "--replay" in sys.argv:
        sys.exit(replay(pid, sys.argv[sys.argv.index("--replay") + 1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = checks.spec(pid, tier)
    if ONLY:
        spec["builds"] = [b for b in spec["builds"] if re.search(ONLY, b.label)]
        if not spec["builds"]:
            print("nothing to run"); sys.exit(0)
    try:
        rc = run_check(pid, tier, seed, spec)
    except CheckError as e:
        print("ERROR:", e); rc = 2
    sys.stdout.flush()
    sys.exit(rc)

if __name__ == "__main__":
    main()
