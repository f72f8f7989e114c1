"""P26: facts on known values are decided at compile time, and decided correctly."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap, circom
from vlib.accept import pair, Wrap, PRAGMA, verdict
from vlib.case import guarded
from vlib.field import Field, DivZero, BINOPS, UNOPS, PRIMES
from vlib.files import read_r1cs
from vlib.wit import Wasm

DEFS = """function id_(a) { return a; }
function pick_(k, a, b) { if (k == 1) { return a; } else { return b; } }
function sum_(n) { var s = 0; for (var i = 0; i <= n; i++) { s += i; } return s; }
function rd_(v, i) { return v[i]; }
function rec_(n, a) { if (n == 0) { return a; } else { return rec_(n - 1, a + 1); } }
function check_(a) { assert(a != 0); return a; }
function quo_(a, b) { return a \\ b; }
bus Bs(n) { signal x; signal y[n]; }
template Id() { signal input in; signal output out; out <== in; }
template Ar(n) { signal input in[n]; signal output out[n]; out <== in; }
template As(k) { signal input in; signal output out; assert(k != 0); out <== in + k; }
template Ix(k) { signal input in; signal output out; var w[3] = [5, 6, 7]; out <== in + w[k]; }
template Dv(k) { signal input in; signal output out; out <== in + 60 \\ k; }
"""
DECLS = """  signal input x; signal input y; signal input a[2]; signal input m[2][3];
  signal s; signal t[2]; signal u[2][3]; signal b[2][3]; b <== m;
  var v = 1; var w[2] = [1, 2]; var z[2][3]; var aux = 0;
  component c = Id(); c.in <== x;
  component d[2]; for (var i = 0; i < 2; i++) { d[i] = Id(); d[i].in <== y; }
  component ar = Ar(2); ar.in <== a;
  Bs(2) e; e.x <== x; e.y <== a; Bs(3) f[2]; for (var i = 0; i < 2; i++) { f[i].x <== y; f[i].y <== m[i]; }
"""
INPUTS = [("x", ""), ("y", ""), ("a", "[2]"), ("m", "[2][3]")]
FL = [["--O0"], ["--O1"], ["--O2"], [], ["--O0", "--r1cs"], ["--O2", "--wasm"], ["-c"], ["--inspect"], ["--O1", "--sym"]]


class Val:
    """expressions of known value, computed in ways of every kind"""

    def __init__(self, r, F, w):
        self.r, self.F, self.w, self.pre = r, F, w, []

    def lit(self, v):
        p = self.F.p
        if v > p // 2 and self.r.random() < .8: return "(-%d)" % (p - v)
        return self.r.choice([str(v)] * 3 + (["0x%x" % v] if v < p else []))

    def of(self, v, depth):
        """an atom of value v"""
        r, F, w = self.r, self.F, self.w
        p = F.p
        v %= p
        if depth <= 0: return self.lit(v)
        q = w.name("k")
        k = r.randrange(17)
        sub = lambda x: self.of(x, depth - 1)
        k2 = F.rand(r)
        if k == 0: return "(%s + %s)" % (sub(v - k2), self.lit(k2))
        if k == 1: return "(%s - %s)" % (sub(v + k2), self.lit(k2))
        if k == 2 and k2: return "(%s * %s)" % (sub(v * F.inv(k2)), self.lit(k2))
        if k == 3 and k2: return "(%s / %s)" % (sub(v * k2), self.lit(k2))
        if k == 4: return "(%s %s %s)" % (sub(v ^ 5), "^", "5") if (v ^ 5) < p else self.lit(v)
        if k == 5: return "id_(%s)" % sub(v)
        if k == 6:
            self.pre.append("var %s[2] = [%s, %s];" % ((q,) + ((sub(v), self.lit(k2)) if k2 % 2 else (self.lit(k2), sub(v)))))
            return "%s[%d]" % (q, 0 if k2 % 2 else 1)
        if k == 7: self.pre.append("var %s = %s;" % (q, sub(v))); return q
        if k == 8:
            n = r.randrange(1, 6)
            self.pre.append("var %s = %s; for (var %s_i = 0; %s_i < %d; %s_i++) { %s += %s_i; }" % (q, sub(v - n * (n - 1) // 2), q, q, n, q, q, q)); return q
        if k == 9:
            c = r.random() < .5
            self.pre.append("var %s; if (N %s 3) { %s = %s; } else { %s = %s; }" % (q, "==" if c else "!=", q, sub(v) if c else self.lit(k2), q, self.lit(k2) if c else sub(v))); return q
        if k == 10: return "pick_(%s, %s, %s)" % (("1", sub(v), self.lit(k2)) if k2 % 2 else ("N", self.lit(k2), sub(v)))
        if k == 11: self.pre.append("var %s = N == 3 ? %s : %s;" % (q, sub(v), self.lit(k2))); return q
        if k == 12: return "(%s + N)" % sub(v - 3)
        if k == 13: n = r.randrange(4); return "rec_(%d, %s)" % (n, sub(v - n))
        if k == 14: return "rd_([%s, %s], 1)" % (self.lit(k2), sub(v))
        if k == 15 and v < 1 << 200: n = r.randrange(1, 20); return "((%s << %d) >> %d)" % (sub(v), n, n) if v >> (F.bits - 22) == 0 else "(-(%s))" % sub(-v)
        if k == 16: self.pre.append("var %s[2][2]; %s[1][0] = %s; %s[0][1] = 8;" % (q, q, sub(v), q)); return "%s[1][0]" % q
        return "(%s + sum_(3))" % sub(v - 6)

    def tree(self, depth):
        """random expression -> (text, value); the value is None when a division by zero is evaluated"""
        r, F = self.r, self.F
        if depth == 0 or r.random() < .15:
            v = F.rand(r)
            return self.of(v, r.choice([0, 0, 1])), v
        if r.random() < .12:
            op = r.choice(UNOPS)
            t, v = self.tree(depth - 1)
            return "(%s(%s))" % (op, t), None if v is None else F.un(op, v)
        op = r.choice(BINOPS)
        if depth == 1 and r.random() < .5:
            x, y = F.near(r, op)
            return "(%s %s %s)" % (self.of(x, 0), op, self.of(y, 0)), self.bin(op, x, y)
        (t1, v1), (t2, v2) = self.tree(depth - 1), self.tree(depth - 1)
        if op == "**" and F.bits < 10: op = "+"
        return "(%s %s %s)" % (t1, op, t2), self.bin(op, v1, v2)

    def bin(self, op, x, y):
        try: return None if x is None or y is None else self.F.bin(op, x, y)
        except DivZero: return None


# (what, statement with {i}: the position, number of positions there)
IDX = [
    ("reading a variable array", "v = w[{i}];", 2), ("writing a variable array", "w[{i}] = 1;", 2), ("reading an input array", "s <== a[{i}];", 2), ("reading a row", "t2 = z[{i}];", 2), ("reading in a row", "v = z[1][{i}];", 3), ("reading a column", "v = z[{i}][2];", 2), ("writing in a row", "z[0][{i}] = v;", 3), ("writing a column", "z[{i}][2] += 1;", 2), ("writing a row", "z[{i}] = [1, 2, 3];", 2),
    ("constraining a signal of an array", "t[{i}] <== x;", 2), ("assigning a signal of an array", "t[{i}] <-- x;", 2), ("assigning in a matrix", "u[{i}][1] <== x;", 2), ("assigning in a row", "u[1][{i}] <== x;", 3), ("assigning a row", "u[{i}] <== m[1];", 2), ("comparing a row", "b[{i}] === m[{i}];", 2), ("reading a signal", "s <== b[1][{i}] * x;", 3), ("the output of a component of an array", "s <== d[{i}].out;", 2), ("the output array of a component", "s <== ar.out[{i}];", 2), ("an output of a component in a constraint", "ar.out[{i}] === a[{i}];", 2),
    ("the input of a component of an array", "component q[2]; q[{i}] = Id(); q[{i}].in <== x; q[1 - ({i})] = Id(); q[1 - ({i})].in <== x;", 2), ("the input array of a component", "component q = Ar(2); q.in[{i}] <== x; q.in[1 - ({i})] <== y;", 2), ("a field array of a bus", "s <== e.y[{i}];", 2), ("a bus of an array", "s <== f[{i}].x;", 2), ("a field array of a bus of an array", "s <== f[1].y[{i}];", 3), ("a bus array", "Bs(3) q; q <== f[{i}];", 2), ("assigning a field of a bus array", "Bs(3) q[2]; q[{i}].x <== x;", 2), ("assigning in a bus", "Bs(3) q; q.y[{i}] <== x;", 3),
    ("reading in a function", "v = rd_(w, {i});", 2), ("reading a literal in a function", "v = rd_([4, 5, 6], {i});", 3), ("reading in a template", "component q = Ix({i}); q.in <== x;", 3), ("reading in an anonymous component", "s <== Ix({i})(x);", 3), ("an index of an index", "v = z[w[{i}] - 1][0];", 2), ("an argument", "v = id_(w[{i}]);", 2), ("a condition", "if (w[{i}] == 1) {{ v = 2; }}", 2), ("a loop condition", "while (v < w[{i}] - 1) {{ v = 100; }}", 2), ("an assertion", "assert(w[{i}] < 3);", 2), ("a log", "log(w[{i}]);", 2), ("a dimension", "signal q[w[{i}]];", 2),
    ("a dimension of a variable", "var q[1 + w[{i}]];", 2), ("an array literal", "w = [w[{i}], 1];", 2), ("a constraint", "x * w[{i}] === w[{i}] * x;", 2), ("a ternary", "v = v == 1 ? w[{i}] : 3;", 2), ("increment", "w[{i}]++;", 2), ("a compound assignment", "w[{i}] *= 2;", 2), ("an initialisation", "var q = w[{i}];", 2), ("a parameter", "component q = Ar(w[{i}]); for (var i = 0; i < w[{i}]; i++) {{ q.in[i] <== x; }}", 2), ("an assigned component input", "component q = Id(); q.in <== m[1][{i}];", 3), ("an anonymous input", "s <== Id()(a[{i}]);", 2), ("a tuple", "(v, w[{i}]) = (1, 2);", 2), ("an underscore", "_ <== m[1][{i}];", 3),
]
DIV = [
    ("a quotient", "v = 7 \\ {e};"), ("a remainder", "v = 7 % {e};"), ("a division", "v = 7 / {e};"), ("a quotient in a constraint", "s <== x + 7 \\ {e};"), ("a remainder in a constraint", "s <== (7 % {e}) * x;"), ("a division of an expression", "s <== x / {e};"), ("a quotient in a condition", "if (7 \\ {e} == 1) {{ v = 1; }}"), ("a remainder in an index", "v = w[(7 % {e}) * 0];"), ("a quotient in a function", "v = quo_(7, {e});"), ("a quotient in a template", "component q = Dv({e}); q.in <== x;"), ("a quotient in an anonymous component", "s <== Dv({e})(x);"),
    ("a quotient in an assertion", "assert(0 <= (7 \\ {e}) * 0);"), ("a compound quotient", "v \\= {e};"), ("a compound remainder", "v %= {e};"), ("a compound division", "v /= {e};"), ("a remainder in a dimension", "signal q[1 + (7 % {e}) * 0];"), ("a quotient in an argument", "v = id_(7 \\ {e});"), ("a quotient in an array", "w = [7 \\ {e}, 1];"), ("a remainder in a loop condition", "for (var i = 0; i < (7 % {e}) * 0 + 1; i++) {{ v = 1; }}"), ("a quotient of zero", "v = 0 \\ {e};"), ("a division of zero", "v = 0 / {e};"), ("a quotient in a conjunction", "v = 0 && (7 \\ {e});"), ("a quotient in a log", "log(7 \\ {e});"),
    ("a quotient in a parameter", "component q = As(1 + (7 \\ {e}) * 0); q.in <== x;"), ("a quotient in an equality", "x * (7 \\ {e}) === (7 \\ {e}) * x;"), ("a division in a ternary", "v = 1 == 1 ? 7 \\ {e} : 3;"), ("a quotient in the condition of a ternary", "v = (7 \\ {e}) == 1 ? 2 : 3;"), ("an initialisation", "var q = 7 \\ {e};"), ("a quotient in the initialisation of a signal", "signal q <== x * (7 \\ {e});"),
]
ASS = [("an assertion", "assert({e});"), ("an assertion of a comparison", "assert(({e}) != 0);"), ("an assertion in a function", "v = check_({e});"), ("an assertion in a template", "component q = As({e}); q.in <== x;"), ("an assertion in an anonymous component", "s <== As({e})(x);"), ("an assertion of a negation", "assert(!(({e}) == 0));"), ("an assertion in an array of components", "component q[3]; for (var i = 0; i < 3; i++) {{ q[i] = As(i == N - 2 ? {e} : 1 + i); q[i].in <== x; }}"), ("an assertion on a variable", "var q = {e}; var q2[2] = [q, q]; assert(q2[1]);"), ("an assertion in an argument", "v = id_(check_({e}));"), ("an assertion in a condition", "if (check_({e}) == 5) {{ v = 1; }}"),
       ("an assertion of the last pass", "for (var i = 0; i < 4; i++) {{ assert(i == N ? {e} : 1); }}"), ("an assertion in an index", "v = w[check_({e}) * 0];"), ("an assertion in a log", "log(check_({e}));"), ("an assertion in a constraint", "s <== x * check_({e});"), ("an assertion in a dimension", "signal q[1 + check_({e}) * 0];")]
# places where a statement is not executed; {s} the statement
DEAD = ["if (N == 4) {{ {s} }}", "if (N == 3) {{ v = 1; }} else {{ {s} }}", "for (var i_ = 0; i_ < 0; i_++) {{ {s} }}", "while (N > 3) {{ {s} }}", "if (N > 0) {{ }} else if (N == 0) {{ {s} }}", "if (1) {{ if (0) {{ {s} }} }}", "var d_[2] = [0, 1]; if (d_[0]) {{ {s} }}", "for (var i_ = 0; i_ < 3; i_++) {{ if (i_ == 3) {{ {s} }} }}", "var g_ = N; while (g_ > 3) {{ {s} g_--; }}"]


def has_decl(s): return any(k in s for k in ("signal ", "component ", "Bs("))


def place(r, s):
    while True:
        d = r.choice(DEAD)
        if has_decl(s) and ("for" in d or "while" in d): continue
        return d.format(s=s)


def dead_ok(s):
    """statements whose wires would be declared and left incomplete are not used there"""
    return "component q" not in s


def facts(a, res):
    """a fact that holds, the same fact when it fails, and the failing one where it is not executed"""
    r = random.Random(a["seed"])
    prime = r.choice(["bn128"] * 3 + sorted(PRIMES))
    F = Field(prime)
    w = Wrap(r)
    st = r.getstate()
    kind = r.choice(["index", "index", "division", "assertion"])
    if kind == "index":
        what, tpl, n = r.choice(IDX)
        g = r.randrange(n)
        bad = r.choice([n, n, n, -1, n + 1, 2 * n, 1 << 31, 1 << 32, (1 << 32) + g, 1 << 63, (1 << 64) + g, 1 << 64, F.p - n, F.p // 2, F.p // 2 + 1])
        if "component q[2]; q[{i}]" in tpl or "q.in[1 -" in tpl: bad = r.choice([n, -1, n + 1, 1 << 32])
        key, vals = "i", (g, bad)
    elif kind == "division":
        what, tpl = r.choice(DIV); key, vals = "e", (r.choice([1, 2, 3, 7, -1, F.rand(r) or 1]), 0)
    else:
        what, tpl = r.choice(ASS); key, vals = "e", (r.choice([1, 2, -1, F.rand(r) or 1]), 0)
    tpl = tpl.replace("t2 = z[", "t2_ = z[")
    pre0 = "var t2_[3]; "
    dp = r.choice([0, 0, 1, 2, 3])
    nd = r.choice([0, 0, 1, 2])
    if has_decl(tpl): nd = min(nd, 1)
    deadn = r.random() < .5
    noloop = has_decl(tpl)
    st = r.getstate()

    def prog(v, dead=False):
        r.setstate(st); w.n = 0; w.depth = nd
        V = Val(r, F, w)
        e = V.of(v % F.p, dp)
        s = tpl.format(**{key: e})
        if dead: s = place(r, s)
        body = pre0 + "".join(x + " " for x in V.pre) + s
        if noloop: body = "{ " * nd + body + " }" * nd
        else: body = w.nest(body)
        return w.program(DEFS, DECLS, "  " + body + "\n", inputs=INPUTS)
    fl = r.choice(FL) + ["--prime", prime]
    if prime == "goldilocks" and "-c" in fl: fl.remove("-c")
    k = "facts/%d" % a["seed"]
    good, bad = prog(vals[0]), prog(vals[1])
    x = pair(res, a, k, r, good, bad, "%s (%s against %s)" % (what, vals[0], vals[1]), flags=fl)
    if not x: return
    res.seen((what, str(vals[1]), dp), {"fact": what, "allowed value": str(vals[0]), "forbidden value": str(vals[1]), "flags": " ".join(fl)})
    if deadn and dead_ok(tpl):
        if pair(res, a, k + "/dead", r, prog(vals[1], True), None, "%s with %s where it is not executed" % (what, vals[1]), flags=fl): res.cnt("unexecuted_facts")


def trees(a, res):
    """values of random expressions of every operator"""
    r = random.Random(a["seed"])
    prime = r.choice(["bn128"] * 2 + sorted(PRIMES))
    F = Field(prime)
    w = Wrap(r)
    st = r.getstate()
    zero, ok, V, asserts = None, [], Val(r, F, w), []
    n = r.choice([1, 3, 6])
    for _ in range(n):
        at = len(V.pre)
        t, v = V.tree(r.choice([1, 2, 3, 4]))
        if v is None:
            zero = (V.pre[at:], t)
            del V.pre[at:]
            continue
        q = w.name("r")
        V.pre.append("var %s = %s;" % (q, t))
        asserts.append((q, v, t))
    if not asserts: return
    body = "".join("  %s\n" % x for x in V.pre)
    j = r.randrange(len(asserts))
    st = r.getstate()

    def prog(off, z=None):
        r.setstate(st); w.depth = 0
        return w.program(DEFS, DECLS, body + ("  %s var zz_ = %s;\n" % (" ".join(z[0]), z[1]) if z else "") + "".join("  assert(%s == %d);\n" % (q, (v + (off if i == j else 0)) % F.p) for i, (q, v, t) in enumerate(asserts)), inputs=INPUTS)
    off = r.choice([1, -1, F.p // 2, 1 << 32, 1 << 64])
    fl = ["--O0", "--prime", prime]
    if pair(res, a, "trees/%d" % a["seed"], r, prog(0), prog(off), "the value of %s is %d in %s" % (asserts[j][2][:200], asserts[j][1], prime), flags=fl):
        if zero:
            if not pair(res, a, "trees/%d/zero" % a["seed"], r, None, prog(0, zero), "the expression %s divides by zero" % zero[1][:200], flags=fl): return
            res.seen((zero[1], prime)); res.cnt("expressions_dividing_by_zero")
        for q, v, t in asserts: res.seen((t, prime), {"expression": t[:120], "value": str(v), "prime": prime}); res.cnt("expression_values")


def several(a, res):
    """one instance or call of several fails"""
    r = random.Random(a["seed"])
    n, bad = r.choice([2, 3, 5]), None
    bad = r.randrange(n)
    kind = r.choice(["As", "Ix", "Dv"])
    good_v = {"As": [1, 2, 3, 9], "Ix": [0, 1, 2], "Dv": [1, 2, 60, 61]}[kind]
    bad_v = {"As": 0, "Ix": r.choice([3, 4, "-1"]), "Dv": 0}[kind]
    how = r.randrange(6)

    def prog(use_bad):
        r2 = random.Random(a["seed"] + 1)
        vs = [str(r2.choice(good_v)) for _ in range(n)]
        if use_bad: vs[bad] = str(bad_v)
        lst = "[" + ", ".join(vs) + "]"
        if how == 0: b = "component q[%d]; var l[%d] = %s; for (var i = 0; i < %d; i++) { q[i] = %s(l[i]); q[i].in <== x; }" % (n, n, lst, n, kind)
        elif how == 1: b = " ".join("component q%d = %s(%s); q%d.in <== x;" % (i, kind, v, i) for i, v in enumerate(vs))
        elif how == 2: b = " ".join("signal q%d <== %s(%s)(x);" % (i, kind, v) for i, v in enumerate(vs))
        elif how == 3: b = "component q = Lv(%s, %d); q.in <== x;" % (lst, n)
        elif how == 4: b = "signal q[%d]; var l[%d] = %s; for (var i = 0; i < %d; i++) { q[i] <== %s(l[i])(x); }" % (n, n, lst, n, kind)
        else: b = "component q = Rc(%d, %s); q.in <== x;" % (n - 1, lst)
        t = DEFS + "template Lv(l, n) { signal input in; component c[n]; for (var i = 0; i < n; i++) { c[i] = %s(l[i]); c[i].in <== in; } }\n" % kind
        t += "template Rc(k, l) { signal input in; signal output out; component c = %s(l[k]); c.in <== in; component r; if (k > 0) { r = Rc(k - 1, l); r.in <== in; out <== r.out; } else { out <== c.out; } }\n" % kind
        return PRAGMA + t + "template M() { signal input x; signal output o; o <== x; %s }\ncomponent main = M();\n" % b
    if pair(res, a, "several/%d" % a["seed"], r, prog(False), prog(True), "instance %d of %d of %s fails" % (bad, n, kind), flags=r.choice(FL)):
        res.seen((kind, how, n, bad), {"instances": n, "failing": bad, "template": kind}); res.cnt("one_failing_instance")


UNK = ["if (x == 1) {{ {s} }}", "if (x != 1) {{ v = 2; }} else {{ {s} }}", "if (x == 1) {{ if (N == 3) {{ {s} }} }}", "if (N == 3) {{ if (x == 1) {{ {s} }} }}", "for (var i = 0; i < 2; i++) {{ if (x == 1) {{ {s} }} }}", "var g = 0; while (g < 2 - x) {{ g++; }} if (g == 1) {{ {s} }}", "var p = x; while (p == 1) {{ {s} p = 2; }}", "if (x == 1) {{ for (var i = 0; i < 1; i++) {{ {s} }} }}", "if (x == 1) {{ if (y == 7) {{ {s} }} }}",
       "if (x == 1) {{ v = 1; }} if (x == 1) {{ {s} }}", "v = inf(x);", "v = inf2(x, 1);"]


def unknown(a, res):
    """assertions below unknown conditions, and of unknown values, are checked when the witness is computed"""
    r = random.Random(a["seed"])
    hold = r.random() < .4
    F = Field("bn128")
    w = Wrap(r)
    V = Val(r, F, w)
    form = r.choice(UNK)
    infn = "inf" in form
    e = V.of(r.choice([1, 2, 9]) if hold else 0, 0 if infn else r.choice([0, 1, 2]))
    s = r.choice(["assert(%s);", "v = check_(%s);", "assert(%s != 0);", "assert(1 == 1); assert(%s);"]) % e if not infn else ""
    defs = DEFS + "function inf(x) { if (x == 1) { assert(%s); } return x; }\nfunction inf2(x, k) { var q = 0; if (x == k) { q = check_(%s); } return q; }\n" % ((e, e) if infn else ("1", "1"))
    value = r.random() < .25
    if value:
        form, hold = "of a value", False
        body = r.choice(["assert(x != 1);", "var q = x; assert(q - 1);", "v = check_(x - 1);", "assert(x == 1 ? 0 : 1);", "var q[2] = [1, 1]; q[x - 1] = 0; assert(q[0]);"])
    else: body = form.format(s=s)
    text = PRAGMA + defs + "template M(N) { signal input x; signal input y; signal output o; var v = 1; %s %s o <-- v; signal z; z <== x * x; }\ncomponent main = M(3);\n" % (" ".join(V.pre) if not value else "", body)
    fl = r.choice([["--O0"], ["--O1"], ["--O2"]])
    v, x = verdict(text, fl + ["--wasm", "--r1cs"], a["dir"])
    res.ev(); res.cnt("unknown_assertions")
    k = "unknown/%d" % a["seed"]
    if v is None: res.inc("compiler out of time or memory"); return
    if v != "ok": res.viol(k + "/accept", "an assertion below an unknown condition is not left to the witness generation (%s): %s" % (body[:200], x.text.strip()[-400:]), program=text, flags=fl); return
    ins = [{"x": 1, "y": 7}, {"x": 2, "y": 7}]
    o = Wasm.get().run(a["dir"], "c", ins)
    got = [y["w"] is not None for y in o]
    want = [hold, True]
    if got != want: res.viol(k + "/run", "%s: with x = 1 the witness program %s, with x = 2 it %s" % (body[:200], *["computes" if g else "refuses" for g in got]), program=text, flags=fl); return
    res.seen((form, hold, s), {"assertion": body[:160], "holds": hold})


def equalities(a, res):
    """constraints between known values are part of the system: true ones can always be satisfied, false ones never"""
    r = random.Random(a["seed"])
    prime = r.choice(["bn128"] * 2 + sorted(PRIMES))
    F = Field(prime)
    w = Wrap(r); w.depth = r.choice([0, 1, 2])
    V = Val(r, F, w)
    v1 = F.rand(r)
    hold = r.random() < .4
    v2 = v1 if hold else (v1 + r.choice([1, -1, 1 << 32, 1 << 64, F.p // 2])) % F.p
    e1, e2 = V.of(v1, r.choice([0, 1, 2])), V.of(v2, r.choice([0, 1, 2]))
    form = r.choice(["%s === %s;", "0 === %s - (%s);", "[%s, 1] === [%s, 1];", "var q[2] = [1, %s]; q === [1, %s];", "%s * 1 === %s + 0;", "component cc = Eq(%s, %s); cc.in <== x;", "var l = x; l + %s === x + %s;"])
    s = form % (e1, e2)
    defs = DEFS + "template Eq(p, q) { signal input in; p === q; }\n"
    body = "".join(x + " " for x in V.pre)
    if has_decl(s): body = "%s %s" % (body, s)
    else: body = body + w.nest(s)
    text = PRAGMA + defs + "template M(N) { signal input x; signal output o; o <== x * x; %s }\ncomponent main = M(3);\n" % body
    fl = r.choice([["--O0"], ["--O1"], ["--O2"]]) + ["--prime", prime]
    v, x = verdict(text, fl + ["--wasm", "--r1cs"], a["dir"])
    res.ev(); res.cnt("known_constraints")
    k = "equalities/%d" % a["seed"]
    if v is None: res.inc("compiler out of time or memory"); return
    if v == "crash": res.viol(k + "/crash", "crash on a constraint between known values: %s" % x.text[-300:], program=text, flags=fl); return
    if v == "rej":
        if hold: res.viol(k + "/reject", "a constraint between equal known values is refused: %s" % x.text[-300:], program=text, flags=fl); return
        res.seen((form, False, "rejected")); return
    R = read_r1cs(a["dir"] + "/c.r1cs")
    bad = [c for c in R.cons if not set(c[0]) - {0} and not set(c[1]) - {0} and not set(c[2]) - {0} and (c[0].get(0, 0) * c[1].get(0, 0) - c[2].get(0, 0)) % F.p]
    if bool(bad) == hold: res.viol(k + "/r1cs", "known values %d and %d are constrained to be equal and the system %s a constraint that never holds" % (v1, v2, "has" if bad else "has not"), program=text, flags=fl); return
    o = Wasm.get().run(a["dir"], "c", [{"x": 5}])[0]
    if (o["w"] is not None) != hold: res.viol(k + "/run", "known values %d and %d are constrained to be equal and the witness program %s" % (v1, v2, "refuses" if hold else "computes a witness"), program=text, flags=fl); return
    res.seen((form, hold, v1 if v1 < 50 else "big"), {"constraint": s[:160], "holds": hold})


@guarded
def job(a, res): {"facts": facts, "trees": trees, "several": several, "unknown": unknown, "equalities": equalities}[a["mode"]](a, res)


def body(c):
    c.rule = "a fact on known values (position, divisor, assertion, constraint) that holds was accepted and the same fact failing was rejected, or left to the witness program where the documentation says so"

    def items():
        for k in range(40000 if c.quick else 400000):
            yield dict(seed=c.rng.randrange(1 << 40), dir=c.scratch + "/%d" % k, mode=["facts", "trees", "facts", "unknown", "facts", "several", "equalities"][k % 7])
    c.absorb(pmap(job, items(), deadline=c.budget(40, 1200)))


if __name__ == "__main__":
    main("P26", body)
