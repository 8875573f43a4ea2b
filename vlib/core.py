"""Shared machinery: paths, building the harness from /repo's working tree, running TLC, evidence, findings, verdicts."""
import atexit, fcntl, hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, ".build")
TARGET = os.path.join(BUILD, "target")
EVID = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(BUILD, "replays")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


def thorough():
    return TIER == "thorough"


def log(*a):
    print("[%7.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()
_work = None


def workdir():
    global _work
    if _work is None:
        os.makedirs(BUILD, exist_ok=True)
        _work = tempfile.mkdtemp(prefix="run.", dir=BUILD)
        atexit.register(shutil.rmtree, _work, True)
    return _work


def cleanup():
    if _work:
        shutil.rmtree(_work, True)


class ToolError(Exception):
    """the machinery itself failed (never a verdict about the code)"""


def build():
    """cargo build of the harness against /repo's working tree; returns the path of vnode"""
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN=env.get("RUSTUP_TOOLCHAIN", "stable"), CARGO_NET_OFFLINE="true",
               CARGO_HUSKY_DONT_INSTALL_HOOKS="1", CARGO_TARGET_DIR=TARGET, RUSTFLAGS="--cap-lints allow")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(ROOT, "harness"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:], file=sys.stderr)
        raise ToolError("harness build failed")
    # a private copy: a concurrent rebuild must not replace the binary under a running check
    dst = os.path.join(workdir(), "vnode")
    if not os.path.exists(dst):
        shutil.copy2(os.path.join(TARGET, "debug", "vnode"), dst)
    return dst


# ----------------------------------------------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, rc, out, secs):
        self.rc, self.out, self.secs = rc, out, secs
        self.states = self.generated = 0
        self.depth = 0
        for line in out.splitlines():
            if "distinct states found" in line and "states generated" in line and not line.startswith("Progress"):
                w = line.replace(",", "").split()
                self.generated, self.states = int(w[0]), int(w[3])
            if line.startswith("The depth of the complete state graph search is"):
                self.depth = int(line.split()[-1].rstrip("."))
        self.ok = rc == 0 and "Model checking completed. No error has been found." in out

    def prints(self, tag):
        """payloads of PrintT("TAG json") lines"""
        res = []
        for line in self.out.splitlines():
            s = line.strip()
            if s.startswith('"' + tag + " "):
                s = json.loads(s) if s.endswith('"') else None
                if s is not None:
                    res.append(json.loads(s[len(tag) + 1:]))
        return res


_tlc_n = 0
_tlc_lock = threading.Lock()


def tlc(module, cfg=None, env=None, workers=1, xmx="2g", timeout=600, extra=(), dfid=None, seed=None, specdir=None):
    global _tlc_n
    with _tlc_lock:
        _tlc_n += 1
        n = _tlc_n
    meta = os.path.join(workdir(), "tlc.%d" % n)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xss16m", "-Xmx" + xmx,
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + workdir(), "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=specdir or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise ToolError("TLC timeout on %s" % module) from ex
    finally:
        shutil.rmtree(meta, True)
    return TlcResult(p.returncode, p.stdout, time.time() - t)


def tlc_must(module, **kw):
    """run TLC on a design model: any error is a failure of the machinery (the design itself is broken)"""
    r = tlc(module, **kw)
    if not r.ok:
        print(r.out[-4000:], file=sys.stderr)
        raise ToolError("TLC found an error in the design model %s" % (kw.get("cfg") or module))
    return r


def tlc_refutes(chk, module, cfgs, **kw):
    """designs known to lack a property: TLC must find that out, or the properties say less than they seem to"""
    for cfg in cfgs:
        r = tlc(module, cfg=cfg, **kw)
        if r.rc not in (12, 13):           # safety, liveness
            print(r.out[-3000:], file=sys.stderr)
            raise ToolError("TLC does not refute %s" % cfg)
        chk.add("wrong_designs_refuted")


# ------------------------------------------------------------------------------------------------------- verdicts
class Check:
    """collects coverage and violations of one property and ends the process accordingly"""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.extra = {}
        self.violations = []   # (replay path, description)
        self.known_hits = []
        self.known = load_known(prop)
        self.rng = random.Random(SEED * 1000003 + int(prop[1:]))

    def design(self, r):
        self.states += r.states
        self.transitions += r.generated

    def sample(self, x, cap=6):
        if len(self.samples) < cap:
            self.samples.append(x)

    def add(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def violation(self, what, replay):
        """what: one line; replay: json-able or text, stored for reproduction"""
        sig = what if isinstance(what, str) else json.dumps(what)
        for k in self.known:
            if k["match"] in sig:
                if k["id"] not in [h["id"] for h in self.known_hits]:
                    self.known_hits.append(k)
                return False
        os.makedirs(REPLAYS, exist_ok=True)
        body = replay if isinstance(replay, str) else json.dumps(replay, indent=1, default=repr)
        h = hashlib.sha1((self.prop + sig + body).encode()).hexdigest()[:10]
        path = os.path.join(REPLAYS, "%s-%s.txt" % (self.prop, h))
        with open(path, "w") as f:
            f.write("property: %s\nwhat: %s\nseed: %d tier: %s\n\n%s\n" % (self.prop, sig, SEED, TIER, body))
        self.violations.append((path, sig))
        log("violation:", sig[:600])
        return True

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"]}
        cov.update(self.extra)
        if self.events:
            cov["events_validated_against_impl"] = self.events
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "wall_s": round(time.time() - T0, 2)}
        tmp = os.path.join(EVID, "." + self.prop + ".tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        os.replace(tmp, os.path.join(EVID, self.prop + ".json"))
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.violations:
            for path, sig in self.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  " + sig[:500])
            sys.stdout.flush()
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
            self.prop, self.states, self.transitions, self.traces, time.time() - T0))
        sys.stdout.flush()
        return 0


def load_known(prop):
    """known_findings.txt: lines 'finding: property=Cxx id=.. match=<substring> | what fails' and 'fixed: ...'"""
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % prop):
                head, what = line.strip().split(" | ", 1)
                d = head.split(" match=", 1)
                res.append({"id": d[0].split("id=")[1].split()[0], "match": d[1], "what": what})
    return res


def parallel(fns, n=None):
    """run callables in threads, at most n at a time; returns results in order, re-raises the first exception"""
    n = n or NCPU
    sem = threading.Semaphore(n)
    res = [None] * len(fns)
    exc = []

    def go(i, f):
        with sem:
            if exc:
                return
            try:
                res[i] = f()
            except BaseException as e:  # noqa
                exc.append(e)
    ts = [threading.Thread(target=go, args=(i, f), daemon=True) for i, f in enumerate(fns)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if exc:
        raise exc[0]
    return res
