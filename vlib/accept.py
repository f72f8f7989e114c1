"""Acceptance oracle: pairs of programs, one allowed and one with a mistake planted in it.
Both share their surroundings, so the allowed one shows that the mistake is what is refused."""
import os, re
from .core import circom
from .verdict import OK, BAD

PRAGMA = "pragma circom 2.2.0;\n"


def verdict(text, flags, d, extra=None, name="c.circom"):
    """'ok', 'rej', 'crash', or None (resources); and the run"""
    x = circom(text, flags, d, name=name, extra_files=extra, timeout=60)
    if x.timeout or re.search(r"memory allocation of|capacity overflow", x.err) or x.rc == -9: return None, x
    if x.panicked or x.rc not in (0, 1): return "crash", x
    if x.rc == 0: return ("ok" if OK in x.text else "crash"), x
    return ("rej" if BAD in x.text else "crash"), x


def error_lines(x, name="c.circom"):
    """lines at which errors (not warnings) are reported"""
    out, err = [], False
    for l in x.text.split("\n"):
        if l.startswith("error"): err = True
        elif l.startswith("warning"): err = False
        m = re.search(r"┌─ .*?:(\d+):(\d+)", l)
        if m and err: out.append(int(m.group(1)))
        m = re.match(r"\s*(\d+) │", l)
        if m and err: out.append(int(m.group(1)))
    return out


FLAGS = [["--O0"], ["--O1"], ["--O2"], [], ["--O0", "--r1cs"], ["--O2", "--r1cs", "--sym"], ["--O1", "--wasm"], ["-c"], ["--inspect"], ["--verbose"], ["--sanity_check", "0"], ["--prime", "goldilocks"], ["--wat", "--O0"]]


def pair(res, a, key, r, good, bad, what, must_reject=True, extra=None, flags=None, why=""):
    """good must be accepted, bad rejected.  Either may be None."""
    fl = flags or r.choice(FLAGS)
    gv = None
    if good is not None:
        gv, x = verdict(good, fl, a["dir"], extra)
        res.ev(); res.cnt("allowed_programs")
        if gv is None: res.inc("compiler out of time or memory"); return
        if gv != "ok":
            res.viol("%s/good" % key, "%s: the allowed program is not accepted (%s): %s" % (what, " ".join(fl), x.text.strip()[-500:]), program=good, flags=fl); return
    if bad is not None and must_reject:
        v, x = verdict(bad, fl, a["dir"], extra)
        res.ev(); res.cnt("forbidden_programs")
        if v is None: res.inc("compiler out of time or memory"); return
        if v == "ok": res.viol("%s/bad" % key, "%s: the program is accepted (%s)%s" % (what, " ".join(fl), why), program=bad, flags=fl); return
        if v == "crash": res.viol("%s/crash" % key, "%s: the compiler crashes on the program (%s): %s" % (what, " ".join(fl), x.err[-300:]), program=bad, flags=fl); return
        return x
    return True


class Wrap:
    """surroundings for one or more statements of a template"""

    def __init__(self, r, depth=None):
        self.r, self.n = r, 0
        self.depth = r.choice([0, 0, 1, 1, 2, 3]) if depth is None else depth

    def name(self, p="q"):
        self.n += 1
        return "%s_%d" % (p, self.n)

    def nest(self, stmts, decl_ok=True):
        """statements executed exactly once, below known control flow"""
        r, s = self.r, stmts
        # (signals, components and buses are declared outside of loops)
        noloop = bool(re.search(r"\bsignal\b|\bcomponent\b|(^|[;{}]) *[A-Z]\w*\([^;]*?\) \w+ *(;|\[|<|=[^=])", stmts))
        for _ in range(self.depth):
            q = self.name()
            fs = [
                lambda: "{ %s }" % s, lambda: "if (N == 3) { %s }" % s, lambda: "if (N < 0) { var %s = 1; } else { %s }" % (q, s), lambda: "for (var %s = 0; %s < 1; %s++) { %s }" % (q, q, q, s),
                lambda: "for (var %s = N; %s > N - 1; %s -= 1) { %s }" % (q, q, q, s), lambda: "var %s = 0; while (%s < 1) { %s %s += 1; }" % (q, q, s, q), lambda: "if (N != 3) { } else if (N > 2) { %s }" % s,
                lambda: "var %s[2] = [0, 1]; if (%s[1] == N - 2) { %s }" % (q, q, s)]
            s = r.choice([f for i, f in enumerate(fs) if not noloop or i not in (3, 4, 5)])()
        return s

    def distract(self):
        """statements of no consequence"""
        r = self.r
        out = []
        for _ in range(r.choice([0, 0, 1, 2])):
            q = self.name("d")
            out.append(r.choice(["var %s = N * 2;" % q, "var %s[2] = [N, 1];" % q, "for (var %s = 0; %s < N; %s++) { }" % (q, q, q), "signal %s; %s <== 3;" % (q, q), "assert(N == 3);", 'log("x", N);', "var %s; if (N == 3) { %s = 1; }" % (q, q), "/* %s */" % q]))
        return "  " + "\n  ".join(out) + "\n" if out else ""

    def program(self, defs, decls, stmts, main="", inputs=(), pragma=PRAGMA):
        """the template M(N) has N = 3; it is main, or a component of main, or of a component of main.
        inputs: [(name, dimensions text)] declared by the caller in decls as inputs of M"""
        r = self.r
        t = "template M(N) {\n%s%s%s%s}\n" % (self.distract(), decls, self.distract() if r.random() < .5 else "", stmts)
        lvl = r.choice([0, 0, 0, 1, 2])
        top = "M(3)"
        for k in range(lvl):
            nm = "U%d" % k
            t += "template %s() {\n  component mm_ = %s;\n%s}\n" % (nm, top, "".join("  signal input %s%s;\n  mm_.%s <== %s;\n" % (n, dm, n, n) for n, dm in inputs))
            top = nm + "()"
        parts = [x for x in re.split(r"(?m)^(?=template |function |bus )", defs) if x.strip()] + [t]
        r.shuffle(parts)
        return pragma + "".join(parts) + "component main%s = %s;\n" % (main, top)
