"""Shared machinery: building circom from /repo, running it, parallel jobs,
verdict reporting and evidence."""
import hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 4)
CIRCOM = os.path.join(REPO, "target", "debug", "circom")


class Inconclusive(Exception):
    """The machinery could not decide (timeouts, missing tools): never a violation."""


# ----------------------------------------------------------------- building
def cargo_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "mkdocs"))
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode()); h.update(b"\0")
            try:
                with open(p, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
    return h.hexdigest()


def build_circom():
    """cargo build of /repo's working tree; sources are touched first when the tree
    differs from the one this machinery built last, so that no stale artefact with a
    newer mtime is ever taken for a build of the current tree."""
    th = tree_hash()
    stamp = os.path.join(REPO, "target", ".vp_tree_hash")
    try:
        with open(stamp) as f:
            a = f.read().split()
        if len(a) == 2 and a[0] == th and os.path.exists(CIRCOM) and \
                hashlib.sha256(open(CIRCOM, "rb").read()).hexdigest() == a[1]:
            return CIRCOM
    except OSError:
        pass
    now = time.time()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ("target", ".git", "mkdocs")]
        for f in files:
            if f.endswith((".rs", ".lalrpop", ".toml", ".cpp", ".hpp", ".asm", ".wat", ".js", "makefile")):
                try:
                    os.utime(os.path.join(root, f), (now, now))
                except OSError:
                    pass
    r = subprocess.run(["cargo", "build", "--workspace", "--offline"], cwd=REPO, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
        raise Inconclusive("cargo build failed")
    if tree_hash() != th:
        # a build script regenerated a tracked file?  leave it to the next build
        pass
    try:
        with open(stamp, "w") as f:
            f.write(th + " " + hashlib.sha256(open(CIRCOM, "rb").read()).hexdigest())
    except OSError:
        pass
    return CIRCOM


# ------------------------------------------------------------------ running
class R:
    __slots__ = ("rc", "out", "err", "timeout", "dir", "args")

    def __init__(self, rc, out, err, timeout, d, args):
        self.rc, self.out, self.err, self.timeout, self.dir, self.args = rc, out, err, timeout, d, args

    @property
    def panicked(self):
        return "panicked at" in self.err or self.rc == 101 or self.rc < 0

    @property
    def ok(self):
        return self.rc == 0 and not self.timeout

    @property
    def text(self):
        return strip_ansi(self.out + "\n" + self.err)


def strip_ansi(s):
    import re
    return re.sub(r"\x1b\[[0-9;]*m", "", s)


import resource
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def spawn(cmd, mem=None, **kw):
    """Popen in a session of its own; no Python code runs between fork and exec (workers have threads)"""
    p = subprocess.Popen(cmd, start_new_session=True, **kw)
    if mem:
        try:
            resource.prlimit(p.pid, resource.RLIMIT_AS, (mem, mem))
        except (OSError, PermissionError):
            pass
    return p


def run(cmd, cwd=None, timeout=120, mem=None, stdin=None, env=None, binary=False):
    e = dict(os.environ)
    e.pop("RUST_LOG", None)
    e["RUST_BACKTRACE"] = "0"
    if env:
        e.update(env)
    p = spawn(cmd, mem, cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
              stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    to = False
    try:
        o, er = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, er = p.communicate()
    if not binary:
        o = o.decode("utf-8", "replace"); er = er.decode("utf-8", "replace")
    return R(p.returncode, o, er, to, cwd, cmd)


def circom(src, flags=(), d=None, name="c.circom", timeout=120, mem=8 << 30, extra_files=None):
    """Write src (str) into directory d and run circom there with flags."""
    os.makedirs(d, exist_ok=True)
    if src is not None:
        with open(os.path.join(d, name), "w" if isinstance(src, str) else "wb") as f:
            f.write(src)
    for k, v in (extra_files or {}).items():
        p = os.path.join(d, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w" if isinstance(v, str) else "wb") as f:
            f.write(v)
    return run([CIRCOM, name] + list(flags), cwd=d, timeout=timeout, mem=mem)


# ----------------------------------------------------------------- parallel
def _worker(fn, q, out, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        item = q.get()
        if item is None:
            return
        i, arg = item
        try:
            out.put((i, fn(arg), None))
        except Inconclusive as e:
            out.put((i, None, ("inc", str(e))))
        except BaseException:
            out.put((i, None, ("err", traceback.format_exc())))


def pmap(fn, items, deadline=None, procs=NCPU, on_result=None):
    """Run fn over items in worker processes.  Stops handing out work after
    `deadline` (epoch seconds).  Returns list of (index, result, error)."""
    ctx = mp.get_context("fork")
    q, out = ctx.Queue(), ctx.Queue()
    ws = [ctx.Process(target=_worker, args=(fn, q, out, i), daemon=True) for i in range(procs)]
    for w in ws:
        w.start()
    res, it, i, pend = [], iter(items), 0, 0
    done = False

    def feed():
        nonlocal i, pend, done
        while not done and pend < procs * 2:
            if deadline and time.time() > deadline and i > 0:
                done = True
                return
            try:
                a = next(it)
            except StopIteration:
                done = True
                return
            q.put((i, a)); i += 1; pend += 1
    feed()
    while pend:
        try:
            r = out.get(timeout=240 if not deadline or time.time() < deadline else 120)
        except Exception:
            break
        pend -= 1
        res.append(r)
        if on_result:
            on_result(r)
        feed()
    for _ in ws:
        q.put(None)
    for w in ws:
        w.join(timeout=5)
        if w.is_alive():
            w.terminate()
    res.sort(key=lambda r: r[0])
    return res


# ---------------------------------------------------------------- reporting
class Check:
    """One property check: counters, violations, known findings, evidence."""

    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vp_%s_" % pid)
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known = []
        self.known_hits = {}
        self.inconclusive = []
        self.errors = []
        self.rule = ""
        self.level = level
        self.assumptions = []
        self.extra = {}
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid]

    @property
    def quick(self):
        return self.tier == "quick"

    def budget(self, quick_s, thorough_s):
        return self.t0 + (quick_s if self.quick else thorough_s)

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def observe(self, key, sample=None):
        """Register one distinct non-trivial thing the monitor saw."""
        if key not in self.distinct:
            self.distinct.add(key)
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)

    def sub(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def violation(self, key, what, replay):
        """key: stable identification of the failing input/site."""
        for k in self.known:
            if k["key"] == key:
                self.known_hits[key] = k["what"]
                return
        if any(v["key"] == key for v in self.violations):
            return
        if len(self.violations) >= 10:
            return
        self.violations.append(dict(key=key, what=what, replay=replay))

    def absorb(self, results):
        """Merge a list of worker results: dict(count={}, seen=[...], viol=[(key,what,replay)])."""
        for i, r, err in results:
            if err is not None:
                (self.inconclusive if err[0] == "inc" else self.errors).append(err[1])
                continue
            if r is None:
                continue
            for k, v in r.get("count", {}).items():
                self.count(k, v)
            for s in r.get("seen", ()):
                if isinstance(s, tuple) and len(s) == 2 and isinstance(s[1], (dict, str)) and s[1]:
                    self.observe(s[0], s[1])
                else:
                    self.observe(s if not isinstance(s, list) else tuple(s))
            for key, what, replay in r.get("viol", ()):
                self.violation(key, what, replay)
            for x in r.get("inc", ()):
                self.inconclusive.append(x)

    def finish(self, evaluations=None, min_distinct=2):
        wall = time.time() - self.t0
        ev = self.counters.get("evaluations", 0) if evaluations is None else evaluations
        vio = []
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + "-"):
                os.remove(os.path.join(rdir, f))
        for n, v in enumerate(self.violations):
            path = os.path.join(rdir, "%s-%d.json" % (self.pid, n))
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, key=v["key"], what=v["what"], tier=self.tier,
                               seed=self.seed, replay=v["replay"]), f, indent=1, default=str)
            vio.append(path)
        cov = dict(evaluations=ev, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples[:12], counters=self.counters,
                   inconclusive=len(self.inconclusive), inconclusive_samples=self.inconclusive[:5],
                   machinery_errors=len(self.errors), machinery_error_samples=[e[-1500:] for e in self.errors[:3]],
                   known_findings_seen=sorted(self.known_hits))
        cov.update(self.extra)
        e = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                 wall_s=round(wall, 2), violations=len(self.violations), assumptions=self.assumptions)
        tmp = os.path.join(VERIF, "evidence", ".%s.json.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(e, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        shutil.rmtree(self.scratch, ignore_errors=True)
        print("%s tier=%s seed=%d evaluations=%d distinct=%d inconclusive=%d machinery_errors=%d wall=%.1fs" % (
            self.pid, self.tier, self.seed, ev, len(self.distinct), len(self.inconclusive), len(self.errors), wall))
        print("  counters: " + json.dumps(self.counters, sort_keys=True))
        for k in self.known:
            # the finding is announced whether or not this run's workload reached it
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for x in self.inconclusive[:3]:
            print("  inconclusive: " + x[:300])
        for x in self.errors[:2]:
            print("  machinery error: " + x[-1200:])
        for v, p in zip(self.violations, vio):
            print("  violation: %s" % v["what"][:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        if self.violations:
            sys.exit(1)
        if len(self.distinct) < min_distinct or ev == 0:
            # nothing was observed: this is not a verdict of "held", and is said so
            print("WARNING: %s observed too little to say anything" % self.pid)
        sys.exit(0)


def main(pid, fn, level="exploration"):
    c = Check(pid, level)
    try:
        build_circom()
        fn(c)
    except Inconclusive as e:
        c.inconclusive.append(str(e))
    except SystemExit:
        raise
    except BaseException:
        c.errors.append(traceback.format_exc())
    c.finish()
