"""Building and driving the harness crates under /verif/harness, which link the real
crates of /repo and only report what these computed."""
import os, subprocess, threading, select
from .core import VERIF, cargo_env, Inconclusive, spawn

TARGET = os.path.join(VERIF, "build", "harness")


def build(name, cfg=None):
    """cargo build of the harness crate against /repo's working tree; a tree on which it
    does not compile is undecided, never a violation."""
    d = os.path.join(VERIF, "harness", name)
    e = cargo_env(); e["CARGO_TARGET_DIR"] = TARGET
    e.pop("CARGO_PROFILE_DEV_DEBUG", None)
    if cfg:
        e["RUSTFLAGS"] = "--cfg " + cfg
        e["CARGO_TARGET_DIR"] = TARGET + "_" + cfg
    # mtimes of a restored tree may be older than the last build: always look at the crates again
    for root in ("/repo/circom_algebra", "/repo/constraint_writers", "/repo/constant_tracking"):
        for dd, _, fs in os.walk(root + "/src"):
            for f in fs:
                if f.endswith(".rs"):
                    os.utime(os.path.join(dd, f))
    r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode:
        raise Inconclusive("the harness %s does not build on this tree: %s" % (name, r.stdout[-1500:]))
    return os.path.join(e["CARGO_TARGET_DIR"], "debug", "vp_" + name)


class Driver:
    def __init__(self, path):
        self.path = path; self.p = None

    def start(self):
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)

    def ask(self, line, timeout=60):
        if self.p is None or self.p.poll() is not None: self.start()
        try:
            self.p.stdin.write(line + "\n"); self.p.stdin.flush()
        except BrokenPipeError:
            self.p = None
            raise Inconclusive("the driver died before a command")
        if not select.select([self.p.stdout], [], [], timeout)[0]:
            self.p.kill(); self.p.wait(); self.p = None
            raise Inconclusive("the driver did not answer within %d s: %s" % (timeout, line[:200]))
        a = self.p.stdout.readline()
        if not a:
            rc = self.p.wait(); self.p = None
            return "DIED status %s" % rc
        return a.rstrip("\n")
