"""Running the generated witness programs."""
import atexit, glob, hashlib, json, os, select, shutil, subprocess, time
from .core import run, Inconclusive, REPO
from .files import read_wtns, Bad

HERE = os.path.dirname(os.path.abspath(__file__))


class Wasm:
    """A persistent node process executing witness jobs (one per worker process)."""
    _inst = None
    _pid = None

    def __init__(self):
        self.start()

    @classmethod
    def get(cls):
        if cls._inst is None or cls._pid != os.getpid():
            cls._inst, cls._pid = cls(), os.getpid()
        return cls._inst

    def start(self):
        self.p = subprocess.Popen(["node", "--max-old-space-size=2048", os.path.join(HERE, "runwasm.js")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.n = 0

    def run(self, d, name, inputs, sanity=0, mode="w", timeout=90):
        """inputs: list of python objects (or JSON text).  -> list of dicts {w, err, log}"""
        if self.n > 400:
            self.kill(); self.start()
        self.n += 1
        ins = [x if isinstance(x, str) else json.dumps(x) for x in inputs]
        job = json.dumps(dict(id=self.n, dir=os.path.abspath(d), name=name, inputs=ins, sanity=sanity, mode=mode))
        try:
            self.p.stdin.write(job.encode() + b"\n"); self.p.stdin.flush()
        except OSError:
            self.kill(); self.start()
            return self.run(d, name, inputs, sanity, mode, timeout)
        buf = b""
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while not buf.endswith(b"\n"):
            r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not r:
                self.kill(); self.start()
                raise Inconclusive("wasm witness run timed out")
            x = os.read(fd, 1 << 20)
            if not x:
                self.kill(); self.start()
                raise Inconclusive("node died")
            buf += x
        r = json.loads(buf)
        if "fatal" in r:
            return [dict(w=None, err="FATAL " + r["fatal"], log=[]) for _ in inputs]
        for x in r["res"]:
            if x["w"] is not None:
                x["w"] = [int(v) for v in x["w"]]
        return r["res"]

    def kill(self):
        try:
            self.p.kill(); self.p.wait()
        except OSError:
            pass


# ------------------------------------------------------------------- C++
class CppCache:
    """Compiled support objects (main, calcwit, fr, asm), keyed by content and flags."""

    def __init__(self, root):
        self.root = root
        os.makedirs(root, exist_ok=True)


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:20]


SAN = {
    "plain": (["g++"], ["-O1"]),
    "O3": (["g++"], ["-O3"]),
    "asan": (["clang++"], ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-omit-frame-pointer"]),
    "gasan": (["g++"], ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-omit-frame-pointer"]),
    "vg": (["g++"], ["-O0", "-g"]),
    "tsan": (["clang++"], ["-O1", "-g1", "-fsanitize=thread"]),
}


def build_cpp(d, name, cache, kind="plain", timeout=300, extra=()):
    """Compile <d>/<name>_cpp. Returns path of the executable or raises Bad (compile error)."""
    cd = os.path.join(d, name + "_cpp")
    if not os.path.isdir(cd):
        raise Bad("no %s_cpp directory" % name)
    cc, fl = SAN[kind]
    fl = list(fl) + ["-std=c++17" if kind in ("asan", "tsan") else "-std=c++11", "-I.", "-w"] + list(extra)
    files = os.listdir(cd)
    hdr = b"".join(open(os.path.join(cd, f), "rb").read() for f in sorted(files) if f.endswith(".hpp"))
    objs = []
    main_cpp = name + ".cpp"
    for f in sorted(files):
        if f.endswith(".asm"):
            key = _h("asm", open(os.path.join(cd, f), "rb").read())
            o = os.path.join(cache, key + ".o")
            if not os.path.exists(o):
                t = o + ".%d.tmp" % os.getpid()
                r = run(["nasm", "-felf64", f, "-o", t], cwd=cd, timeout=timeout)
                if r.rc: raise Bad("nasm: " + r.err[-500:])
                os.rename(t, o)
            objs.append(o)
        elif f.endswith(".cpp") and f not in (main_cpp, "json2bin64.cpp"):
            key = _h(kind, fl, open(os.path.join(cd, f), "rb").read(), hdr)
            o = os.path.join(cache, key + ".o")
            if not os.path.exists(o):
                t = o + ".%d.tmp" % os.getpid()
                r = run(cc + fl + ["-c", f, "-o", t], cwd=cd, timeout=timeout)
                if r.timeout: raise Inconclusive("compile timeout")
                if r.rc: raise Bad("g++ %s: %s" % (f, r.err[-800:]))
                os.rename(t, o)
            objs.append(o)
    r = run(cc + (fl if kind != "plain" else [x if x != "-O1" else "-O0" for x in fl]) + ["-c", main_cpp, "-o", name + ".o"], cwd=cd, timeout=timeout)
    if r.timeout: raise Inconclusive("compile timeout")
    if r.rc: raise Bad("g++ %s: %s" % (main_cpp, r.err[-1500:]))
    r = run(cc + fl + ["-o", name, name + ".o"] + objs + ["-lgmp", "-lpthread"], cwd=cd, timeout=timeout)
    if r.rc: raise Bad("link: " + r.err[-800:])
    return os.path.join(cd, name)


def run_cpp(exe, inp, tag="0", timeout=60, env=None):
    """-> dict(w=list|None, rc, out, err, wtns=bytes|None)"""
    d = os.path.dirname(exe)
    ij, ow = os.path.join(d, "in_%s.json" % tag), os.path.join(d, "out_%s.wtns" % tag)
    with open(ij, "w") as f:
        f.write(inp if isinstance(inp, str) else json.dumps(inp))
    if os.path.exists(ow):
        os.remove(ow)
    e = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66", "UBSAN_OPTIONS": "print_stacktrace=1",
         "TSAN_OPTIONS": "exitcode=67:halt_on_error=0"}
    e.update(env or {})
    r = run([exe, ij, ow], cwd=d, timeout=timeout, env=e)
    if r.timeout:
        return dict(w=None, rc=None, out=r.out, err=r.err, wtns=None, timeout=True)
    b = open(ow, "rb").read() if os.path.exists(ow) else None
    w = None
    if b is not None and r.rc == 0:
        w = read_wtns(b)
    return dict(w=w, rc=r.rc, out=r.out, err=r.err, wtns=b, timeout=False)
