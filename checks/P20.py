"""P20: non-quadratic and unknown-dependent constraints are rejected, others accepted."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap
from vlib.accept import pair, Wrap, verdict, FLAGS
from vlib.case import guarded
from vlib.field import PRIMES

P = PRIMES["bn128"]
NUM, LIN, QUAD, NQ = range(4)
AMB = "ambiguous"


# ------------------------------------------------------------ degree of expressions
class E:
    """text, kind by composition, polynomial (dict monomial -> coefficient; None: not a polynomial; AMB)"""
    def __init__(self, t, k, p, atom=False): self.t, self.k, self.p, self.atom = t, k, p, atom

    def s(self): return self.t if self.atom else "(" + self.t + ")"


def add(a, b, s=1):
    if a is AMB or b is AMB or (a is None and b is None): return AMB
    if a is None or b is None: return None
    o = dict(a)
    for m, c in b.items():
        o[m] = (o.get(m, 0) + s * c) % P
        if not o[m]: del o[m]
    return o


def mul(a, b):
    if a is AMB or b is AMB: return AMB
    if a == {} or b == {}: return {} if a is not None and b is not None else AMB
    if a is None or b is None: return None if (a is None) != (b is None) and not isinstance(a, str) else AMB
    o = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)); o[k] = (o.get(k, 0) + c * d) % P
            if not o[k]: del o[k]
    return o


def const(p): return p is not AMB and p is not None and all(m == () for m in p)


def rank(p):
    """rank of the symmetric matrix of the quadratic part"""
    vs = sorted({x for m in p if len(m) == 2 for x in m})
    ix = {v: i for i, v in enumerate(vs)}
    M = [[0] * len(vs) for _ in vs]
    h = pow(2, -1, P)
    for m, c in p.items():
        if len(m) == 2:
            i, j = ix[m[0]], ix[m[1]]
            if i == j: M[i][i] = c
            else: M[i][j] = M[j][i] = c * h % P
    rk = 0
    for col in range(len(vs)):
        pv = next((i for i in range(rk, len(vs)) if M[i][col]), None)
        if pv is None: continue
        M[rk], M[pv] = M[pv], M[rk]
        inv = pow(M[rk][col], -1, P)
        for i in range(rk + 1, len(vs)):
            f = M[i][col] * inv % P
            if f: M[i] = [(x - f * y) % P for x, y in zip(M[i], M[rk])]
        rk += 1
    return rk


SIGS = ["x", "y", "z", "a[0]", "a[1]", "a[N-1]", "mid", "c.out", "b.f", "b.g[1]", "d[1].out", "n.in.f", "e[1][0]"]
NUMS = [("0", 0), ("1", 1), ("2", 2), ("N", 3), ("(N+1)", 4), ("(-1)", P - 1), ("kn", 7), ("arr[1]", 5), ("sq(N)", 9), ("0x10", 16), ("(-N)", P - 3), ("tern(N)", 11)]


class Gen:
    def __init__(self, r): self.r, self.pre, self.n = r, [], 0

    def leaf(self):
        r = self.r
        if r.random() < .3:
            t, v = r.choice(NUMS)
            return E(t, NUM, {(): v} if v else {}, True)
        s = r.choice(SIGS)
        return E(s, LIN, {(s,): 1}, True)

    def expr(self, d):
        r = self.r
        if d <= 0 or r.random() < .15: return self.leaf()
        k = r.random()
        a = self.expr(d - 1)
        if k < .06:
            e = E("-%s" % a.s(), a.k, add({}, a.p, -1)) if r.random() < .5 else E("+".join([a.s(), "0"]), a.k, a.p)
        elif k < .44:
            b = self.expr(d - 1); s = r.choice([1, -1])
            e = E("%s %s %s" % (a.s(), "+" if s == 1 else "-", b.s()), NQ if max(a.k, b.k) == NQ or a.k == b.k == QUAD else max(a.k, b.k), add(a.p, b.p, s))
        elif k < .78:
            b = self.expr(d - 1)
            kk = a.k + b.k
            kind = NQ if NQ in (a.k, b.k) else max(a.k, b.k) if NUM in (a.k, b.k) else QUAD if a.k == b.k == LIN else NQ
            e = E("%s * %s" % (a.s(), b.s()), kind, mul(a.p, b.p))
        elif k < .84:
            t, v = r.choice([x for x in NUMS if x[1]])
            e = E("%s / %s" % (a.s(), t), a.k, mul(a.p, {(): pow(v, -1, P)}))
        elif k < .88:
            n = r.choice([2, 2, 3, 4])
            if a.k == NUM: return a
            q = a.p
            for _ in range(n - 1): q = mul(q, a.p)
            e = E("%s ** %d" % (a.s(), n), QUAD if a.k == LIN and n == 2 else NQ, q)
        elif k < .92:
            # a known condition chooses
            b = self.expr(d - 1)
            e = E("N == 3 ? %s : %s" % (a.s(), b.s()), a.k, a.p) if r.random() < .5 else E("N < 3 ? %s : %s" % (b.s(), a.s()), a.k, a.p)
        else:
            b = self.expr(d - 2)
            op = r.choice(["/", "\\", "%", "&", "|", "^", "<<", ">>", "<", "==", "&&", "||", "!", "~", "?"])
            if const(a.p) or const(b.p) or a.p in (None, AMB) or b.p in (None, AMB) or a.k == NUM or b.k == NUM: return a
            if add(a.p, b.p, -1) == {} or a.p == b.p: return a
            t = {"!": "!%s" % a.s(), "~": "~%s" % a.s(), "?": "%s ? %s : %s" % (a.s(), b.s(), "x")}.get(op, "%s %s %s" % (a.s(), op, b.s()))
            e = E(t, NQ, AMB if op in "&|^?" or op in ("&&", "||", "<<", ">>", "<", "\\", "%", "==") and (b.k == NUM) else None)
        if r.random() < .3 and e.t: return self.indirect(e)
        return e

    def indirect(self, e):
        """the same value by way of a variable, an array or a function"""
        r = self.r
        self.n += 1
        v = "v%d" % self.n
        k = r.randrange(6)
        if k == 0: self.pre.append("var %s = %s;" % (v, e.t)); return E(v, e.k, e.p, True)
        if k == 1: self.pre.append("var %s[2]; %s[1] = %s;" % (v, v, e.t)); return E(v + "[1]", e.k, e.p, True)
        if k == 2: return E("id(%s)" % e.t, e.k, e.p, True)
        if k == 3: self.pre.append("var %s = 0; for (var i = 0; i < 2; i++) { if (i == 1) { %s = %s; } }" % (v, v, e.t)); return E(v, e.k, e.p, True)
        if k == 4: return E("second([0, %s])" % e.t, e.k, e.p, True)
        self.pre.append("var %s = %s; %s += 1;" % (v, e.t, v)); return E(v, e.k, add(e.p, {(): 1}), True)


DEFS = """function sq(n) { return n * n; }
function tern(n) { var t; if (n == 3) { t = 11; } else { t = 0; } return t; }
function id(v) { return v; }
function second(v) { var w[2] = v; return w[1]; }
bus B() { signal f; signal g[2]; }
template Id() { signal input in; signal output out; out <== in; }
template W() { B() input in; signal output out; out <== in.f; }
"""
DECLS = """  signal input x; signal input y; signal input z; signal input a[3]; signal input e[2][2];
  var kn = N + 4; var arr[2] = [3, 5];
  signal mid; mid <== x + 1;
  component c = Id(); c.in <== y;
  component d[2]; for (var i = 0; i < 2; i++) { d[i] = Id(); d[i].in <== z; }
  B() b; b.f <== x; b.g[0] <== y; b.g[1] <== z;
  component n = W(); n.in <== b;
  signal o; signal oo[2]; B() ob;
"""
INPUTS = [("x", ""), ("y", ""), ("z", ""), ("a", "[3]"), ("e", "[2][2]")]


def sink(decls, stmts): return decls + ("  component sink = Id();\n" if "sink" in stmts else "")


def place(r, e):
    t = e.t
    return r.choice([lambda: "o <== %s;" % t, lambda: "%s ==> o;" % t, lambda: "oo[0] <== %s;" % t, lambda: "sink.in <== %s;" % t, lambda: "ob.f <== %s;" % t, lambda: "o <-- 1; o === %s;" % t, lambda: "%s === x;" % e.s(), lambda: "0 === %s;" % t,
                     lambda: "oo <== [%s, 1];" % t, lambda: "o <== Id()(%s);" % t, lambda: "signal w <== %s;" % t, lambda: "(o, oo[1]) <== (x, %s);" % t, lambda: "[x, %s] === [x, y];" % t])()


def degree(a, res):
    r = random.Random(a["seed"])
    for t in range(40):
        g = Gen(r)
        e = g.expr(r.choice([2, 3, 3, 4]))
        if e.k == NUM: continue
        good = e.k <= QUAD
        p = e.p
        bad = p is None or (p is not AMB and (any(len(m) > 2 for m in p) or rank(p) > 2))
        if (good or bad) and good != bad and len(e.t) < 600 and (good or r.random() < .8): break
    else: return
    w = Wrap(r)
    st = place(r, e)
    text = w.program(DEFS, sink(DECLS, st), "  " + w.nest(" ".join(g.pre) + " " + st) + "\n", inputs=INPUTS)
    res.cnt("quadratic" if good else "not_quadratic")
    key = "degree/%d" % a["seed"]
    x = pair(res, a, key, r, text if good else None, None if good else text, "constraint %s" % st)
    if x: res.seen(key, {"constraint": st[:200], "form": "A*B+C" if good else "not A*B+C"})


# ------------------------------------------------------------ unknown values
def known_unknown(r):
    """(statements before, expression) for the same shape with a known and an unknown value; the known value is 1"""
    k = [
        ("", "N - 2", "x"), ("", "N - 2", "x - x + 1"), ("var u = {};", "N - 2", "x", "u"), ("var u[2]; u[1] = {}; u[0] = 1;", "1", "mid", "u[1]"),
        ("var u = 0; if ({}) {{ u = 1; }}", "N == 3", "x == 3", "u"), ("var u = 0; for (var i = 0; i < {}; i++) {{ u += 1; }}", "1", "y", "u"),
        ("var u = 1; u *= {};", "1", "z", "u"), ("var u = plus({}, 0);", "1", "x", "u"), ("var u = pick({}, 1, 1);", "1", "a[0]", "u"), ("", "kn", "c.out"), ("", "arr[0]", "b.f"),
        ("var t[2] = [1, 1]; var u = t[{}];", "1", "x", "u"), ("var u = 1; while (u < {}) {{ u += 1; }}", "1", "x", "u"), ("var t[2] = [{}, 1]; var s[2] = t; var u = s[0];", "1", "x", "u"),
        ("var u; {{ {{ u = {}; }} }}", "1", "a[N-1]", "u"), ("var u = 1; if ({}) {{ u++; }} else {{ u = 1; }}", "N == 4", "x", "u"), ("", "1 \\ 1", "x \\ 1"), ("", "N == 3 ? 1 : 0", "x == 3 ? 1 : 0"),
        ("var t[2]; t[{}] = 1; var u = t[0] + t[1];", "1", "x", "u"), ("var u = deep({}, 3);", "1", "mid", "u"), ("", "1", "d[0].out"), ("", "b2k", "e[1][0] * 1"), ("var u = {}; var v = u; var w = v;", "1", "n.out", "w"),
        ("var u = 2; for (var i = 0; i < 2; i++) {{ if (i == 1 && {} == 1) {{ u = 1; }} }}", "1", "x", "u"), ("var u[2][2] = [[1, 1], [1, {}]]; var v[2] = u[1];", "1", "x", "v[1]"), ("var u = red([1, {}, 1], 3) - 2;", "1", "y", "u")]
    f = r.choice(k)
    e = f[3] if len(f) > 3 else None
    mk = lambda v: (f[0].format(v) if f[0] else "", e or v)
    return mk(f[1]), mk(f[2]), (f[0] + " " + (e or "")).strip() + " | " + f[1] + " | " + f[2]


UDEFS = DEFS + """function plus(a, b) { return a + b; }
function pick(c, a, b) { if (c == 1) { return a; } else { return b; } }
function deep(a, n) { if (n == 0) { return a; } else { return deep(a, n - 1); } }
function red(v, n) { var s = 0; for (var i = 0; i < n; i++) { s += v[i]; } return s; }
template Par(k) { signal input in; signal output out; out <== in + k; }
template Arr(k) { signal input in[k]; signal output out; out <== in[0]; }
bus K(k) { signal f[k]; }
template Two() { signal input in; signal output o1; signal output o2; o1 <== in; o2 <== in; }
"""
UDECLS = DECLS.replace("  var kn = N + 4; var arr[2] = [3, 5];", "  var kn = N - 2; var arr[2] = [1, 5]; var b2k = 1;")
USES = [
    ("a constraint under an if", "if ({u} == 1) {{ o <== x; }}"), ("a constraint under an else", "if ({u} != 1) {{ var q = 0; }} else {{ x === x + 0; }}"), ("a constraint in a for loop", "for (var q = 0; q < {u}; q++) {{ oo[q] <== x; }}"),
    ("a constraint in a while loop", "var q = 0; while (q < {u}) {{ x * y === x * y + 0; q++; }}" if False else "var q = 0; while (q < {u}) {{ x * 2 === x + x; q++; }}"),
    ("a component input under an if", "if ({u} == 1) {{ sink.in <== x; }}"), ("a bus field under an if", "if ({u} == 1) {{ ob.f <== x; }}"),
    ("a component under an if", "component q; if ({u} == 1) {{ q = Id(); }} q.in <== x;"), ("a component in a loop", "component q[3]; for (var i = 0; i < {u}; i++) {{ q[i] = Id(); q[i].in <== x; }}"), ("a template parameter", "component q = Par({u}); q.in <== x;"),
    ("a template parameter that is a size", "component q = Arr({u}); q.in[0] <== x;"), ("a parameter of an anonymous component", "o <== Par({u})(x);"), ("an anonymous component under an if", "var vv; if ({u} == 1) {{ vv = Id()(x); }}"),
    ("the size of a signal array", "signal q[{u}]; q[0] <== x;"), ("the size of a variable array", "var q[{u}]; q[0] = 1;"), ("the second size of a variable array", "var q[2][{u}]; q[0][0] = 1;"), ("the size of a component array", "component q[{u}]; q[0] = Id(); q[0].in <== x;"),
    ("the parameter of a bus", "K({u}) q; q.f[0] <== x;"), ("the size of a bus array", "B() q[{u}];"),
    ("an index in a constraint", "a[{u}] === a[1];"), ("an index of an assigned signal", "oo[{u}] <== x;"), ("an index in a product", "o <== x * a[{u}];"), ("an index of a variable in a constraint", "var q[2] = [3, 4]; o <== q[{u}];"),
    ("an index of a component", "o <== d[{u}].out;"), ("an index in a bus", "o <== b.g[{u}];"), ("an index of an assigned bus field", "ob.g[{u}] <== x;"), ("the choice of a ternary in a constraint", "o <== {u} == 1 ? x : y;"),
    ("a condition of nested ifs", "if (N == 3) {{ if ({u} == 1) {{ o <== x; }} }}"), ("a condition around a known if", "if ({u} == 1) {{ if (N == 3) {{ o <== x; }} }}"), ("a condition of a loop around a loop", "for (var i = 0; i < {u}; i++) {{ for (var j = 0; j < 1; j++) {{ y === y * 1; }} }}"),
    ("an exponent", "o <== 2 ** {u};"), ("a divisor", "o <== 4 / {u};"), ("a shift", "o <== 4 >> {u};"), ("a comparison", "o <== {u} < 4;"), ("an integer division", "o <== 7 \\ {u};"), ("a boolean", "o <== {u} && 1;"), ("a bitwise operator", "o <== {u} & 5;"),
    ("an argument of a function that decides", "o <== pick({u}, 3, 4);"), ("an index of an assigned component input", "component q[2]; q[0] = Id(); q[1] = Id(); q[{u}].in <== x; q[1 - 1].in <== y;"), ("the index of a created component", "component q[2]; q[{u}] = Id(); q[{u}].in <== x;"),
    ("a condition with two anonymous outputs", "signal s1; signal s2; if ({u} == 1) {{ (s1, s2) <== Two()(x); }}"), ("an array position in a whole constraint", "e[{u}] === e[1];"), ("a condition of a loop that creates signals", "for (var i = 0; i < {u}; i++) {{ o <== y; }}"),
]
# statements that do not matter for constraints: allowed with unknown values too
HARMLESS = [
    "var q = 0; if ({u} == 1) {{ q = 1; }} else {{ q = 2; }} o <-- q;", "var q = 0; for (var i = 0; i < {u}; i++) {{ q += 2; }} o <-- q;", "o <-- a[{u}];", "o <-- {u} == 1 ? x : y;", "assert({u} == 1);", "log({u});", "var q[2]; q[{u}] = x; o <-- q[0];",
    "if ({u} == 1) {{ o <-- x; }}", "o <-- pick({u}, x, y);", "o <-- 2 ** {u};", "var q[2] = [1, 2]; if ({u}) {{ q[0] = x; }} log(q[0]);", "if ({u} == 1) {{ log(\"one\"); }} else {{ assert(1); }}", "while (0 == {u}) {{ log(1); }}", "oo[{u}] <-- x;", "var q = {u}; q = 3; o <== q * x;" ]


def unknown(a, res):
    r = random.Random(a["seed"])
    w = Wrap(r)
    (kp, ke), (up, ue), what = known_unknown(r)
    name, use = r.choice(USES)
    deep = r.random() < .5
    depth, st = w.depth, r.getstate()

    def prog(pre, e):
        r.setstate(st); w.n = 0
        body = pre + " " + use.format(u="(%s)" % e)
        return w.program(UDEFS, sink(UDECLS, use), "  " + w.nest(body) + "\n" if deep else "  " + pre + " " + w.nest(use.format(u="(%s)" % e)) + "\n", inputs=INPUTS)
    good, bad = prog(kp, ke), prog(up, ue)
    fl = r.choice(FLAGS)
    key = "unknown/%d" % a["seed"]
    # (a value that is a linear expression of signals is no obstacle where only an expression is needed)
    x = pair(res, a, key, r, good, bad, "%s depends on %s" % (name, what), flags=fl)
    if x: res.seen((name, what), {"use": name, "value": what})


def harmless(a, res):
    r = random.Random(a["seed"])
    w = Wrap(r)
    _, (up, ue), what = known_unknown(r)
    use = r.choice(HARMLESS)
    if "oo[{u}]" in use and (("[" in ue) or True) and ue == "": return
    text = w.program(UDEFS, sink(UDECLS, use), "  " + w.nest(up + " " + use.format(u="(%s)" % ue)) + "\n", inputs=INPUTS)
    key = "harmless/%d" % a["seed"]
    x = pair(res, a, key, r, text, None, "%s with unknown %s" % (use, what))
    if x: res.seen((use, what), {"allowed use": use, "value": what})


@guarded
def job(a, res): {"degree": degree, "unknown": unknown, "harmless": harmless}[a["mode"]](a, res)


def body(c):
    c.rule = "a constraint or structure whose acceptance was compared with the form of its expression, or with whether it depends on an unknown value"

    def items():
        for k in range(40000 if c.quick else 400000):
            yield dict(seed=c.rng.randrange(1 << 40), dir=c.scratch + "/%d" % k, mode=["degree", "unknown", "degree", "unknown", "harmless"][k % 5])
    c.absorb(pmap(job, items(), deadline=c.budget(40, 1200)))


if __name__ == "__main__":
    main("P20", body)
