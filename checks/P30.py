"""P30: custom templates are exported and never constrained."""
import os, random, re, sys
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap, circom
from vlib.accept import pair, Wrap
from vlib.alg import compare as project
from vlib.case import guarded
from vlib.drive import label_polys
from vlib.field import PRIMES
from vlib.files import read_r1cs, read_sym
from vlib.wit import Wasm

BUS = {"B0": [("x", (), None), ("y", (2,), None)], "B1": [("b", (), "B0"), ("c", (2,), "B0"), ("d", (), None)]}
BUSES = "bus B0() { signal x; signal y[2]; }\nbus B1() { B0() b; B0() c[2]; signal d; }\n"


def cells(dims, bus, n):
    """texts of the scalar parts, in order"""
    o = [""]
    for d in dims: o = [x + "[%d]" % i for x in o for i in range(n if d == "n" else d)]
    if bus: o = [x + "." + f + y for x in o for f, ds, b in BUS[bus] for y in cells(ds, b, n)]
    return o


class Gate:
    def __init__(self, r, name):
        self.name, self.r = name, r
        self.params = ["n"] + r.sample(["a", "k", "z", "p"], r.choice([0, 0, 1, 2]))
        r.shuffle(self.params)
        self.arr = r.choice([q for q in self.params if q != "n"]) if len(self.params) > 1 and r.random() < .4 else None
        dims = lambda: r.choice([(), (), (2,), ("n",), ("n", 2), (2, 2)])
        kinds = ["input"] * r.choice([1, 1, 2, 3]) + ["output"] * r.choice([0, 1, 1, 2]) + [""] * r.choice([0, 0, 0, 1, 2])
        r.shuffle(kinds)
        self.sigs = [(k, "%s%d" % (r.choice(["in", "a", "z", "out", "s", "w"]), i), dims(), r.choice([None, None, "B0", "B1"])) for i, k in enumerate(kinds)]

    def of(self, k): return [s for s in self.sigs if s[0] == k]

    def text(self):
        r = self.r
        # the texts work for every n: cells of n = 1
        src = [nm + c for k, nm, d, b in self.sigs if k == "input" for c in cells(d, b, 1)]
        o = []
        par = [q if q != self.arr else q + "[1]" for q in self.params]
        for k, nm, d, b in self.sigs: o.append("%s %s%s%s;" % ("signal" if not b else b + "()", k + " " if k else "", nm, "".join("[%s]" % x for x in d)))
        ex = lambda: r.choice(["%s * %s" % (r.choice(src), r.choice(src)), "%s + %s" % (r.choice(src), r.choice(par)), "%s * %s" % (r.choice(src), r.choice(par)), "%s \\ 2" % r.choice(src), r.choice(par), "%s == %s ? 1 : 2" % (r.choice(src), r.choice(src))])
        for k, nm, d, b in self.sigs:
            if k == "input": continue
            for c in cells([x for x in d if x != "n"] if "n" in d else d, b, 1):
                if "n" in d: o.append("for (var i = 0; i < n; i++) { %s[i]%s <-- %s; }" % (nm, c, ex()))
                else: o.append("%s%s <-- %s;" % (nm, c, ex()))
        if r.random() < .3: o.append("log(%s);" % r.choice(src))
        if r.random() < .2: o.append("assert(n > 0);")
        q = r.choice(["custom", "custom", "custom parallel"])
        return "template %s %s(%s) {\n  %s\n}\n" % (q, self.name, ", ".join(self.params), "\n  ".join(o))

    def instance(self, p):
        """(argument texts, n, flat values in order of declaration, and by name)"""
        r = self.r
        v = {}
        for q in self.params:
            if q == "n": v[q] = [r.choice([1, 2, 3])]
            elif q == self.arr: v[q] = [r.randrange(9) for _ in range(2)]
            else: v[q] = [r.choice([0, 1, 5, p - 1, r.randrange(p)])]
        tx = [("[%d, %d]" % tuple(v[q]) if q == self.arr else str(v[q][0]) if v[q][0] <= 9 or r.random() < .5 else "-%d" % (p - v[q][0])) for q in self.params]
        return tx, v["n"][0], [x for q in self.params for x in v[q]], [x for q in sorted(self.params) for x in v[q]]


class Gen:
    def __init__(self, r, p):
        self.r, self.p, self.n = r, p, 0
        self.gates = [Gate(r, "G%d" % i if r.random() < .7 else r.choice(["Gate_", "g$", "_G"]) + str(i)) for i in range(r.choice([1, 1, 2, 3]))]
        # templates: text, and list of (path regex relative to the instance, gate, n, values, values)
        self.ts = []
        for i in range(r.choice([0, 1, 2])): self.ts.append(self.template("U%d" % i))
        self.main = self.template("Main", True)

    def nm(self, q):
        self.n += 1
        return q + str(self.n)

    def template(self, name, top=False):
        r = self.r
        ni = r.choice([2, 3])
        o = ["signal input i[%d];" % ni, "signal output o;"]
        have, apps, anon = ["i[%d]" % k for k in range(ni)], [], set()
        def ex():
            a, b, c = r.choice(have), r.choice(have), r.choice(have)
            return r.choice([a, a, a, "%s * %s" % (a, b), "%s + %s" % (a, b), "%s * %s - %s" % (a, b, c), "3", "2 * %s" % a])
        todo = [r.choice(self.gates + self.ts * 2) for _ in range(r.choice([1, 2, 3] if not top else [2, 3, 4]))]
        if top: todo += [t for t in self.ts if t not in todo]
        for g in todo:
            c = self.nm("c")
            if isinstance(g, Gate):
                tx, n, v1, v2 = g.instance(self.p)
                ins, outs = g.of("input"), g.of("output")
                k = r.randrange(4)
                if k == 0 and g.name not in anon and outs:
                    # anonymous
                    anon.add(g.name)
                    args = []
                    for _, nm, d, b in ins:
                        s = self.nm("s")
                        o.append("%s %s%s;" % ("signal" if not b else b + "()", s, "".join("[%s]" % (n if x == "n" else x) for x in d)))
                        o += ["%s%s <== %s;" % (s, q, ex()) for q in cells(d, b, n)]
                        args.append(s)
                    ws = []
                    for _, nm, d, b in outs:
                        s = self.nm("s"); ws.append(s)
                        o.append("%s %s%s;" % ("signal" if not b else b + "()", s, "".join("[%s]" % (n if x == "n" else x) for x in d)))
                        have += [s + q for q in cells(d, b, n)]
                    o.append("%s <== %s(%s)(%s);" % (ws[0] if len(ws) == 1 else "(%s)" % ", ".join(ws), g.name, ", ".join(tx), ", ".join(args)))
                    apps.append((re.escape(g.name) + r"_\d+_\d+", g, n, v1, v2))
                    continue
                names = [c]
                if k == 1:
                    m = r.choice([1, 2, 3]); names = ["%s[%d]" % (c, j) for j in range(m)]
                    o.append("component %s[%d];" % (c, m)); o.append("for (var q = 0; q < %d; q++) { %s[q] = %s(%s); }" % (m, c, g.name, ", ".join(tx)))
                else: o.append("component %s = %s(%s);" % (c, g.name, ", ".join(tx)))
                for x in names:
                    apps.append((re.escape(x), g, n, v1, v2))
                    for _, nm, d, b in ins: o += ["%s.%s%s <== %s;" % (x, nm, q, ex()) for q in cells(d, b, n)]
                    for _, nm, d, b in outs: have += ["%s.%s%s" % (x, nm, q) for q in cells(d, b, n)]
            else:
                o.append("component %s = %s();" % (c, g[0]))
                for j in range(g[1]): o.append("%s.i[%d] <== %s;" % (c, j, ex()))
                have.append(c + ".o")
                apps += [(c + r"\." + q, *z) for q, *z in g[3]]
        if r.random() < .5: s = self.nm("s"); o.append("signal %s <== %s;" % (s, ex())); have.append(s)
        if r.random() < .3: o.append("%s === %s;" % (r.choice(have), r.choice(have)))
        o.append("o <== %s;" % ex())
        return name, ni, "template %s() {\n  %s\n}\n" % (name, "\n  ".join(o)), apps

    def texts(self):
        r = self.r
        ds = [BUSES] + [g.text() for g in self.gates] + [t[2] for t in self.ts + [self.main]]
        r.shuffle(ds)
        top = "component main%s = Main();\n" % r.choice(["", "", " {public [i]}"])
        body = "".join(ds) + top
        a = "pragma circom 2.1.6;\npragma custom_templates;\n" + body
        # (the lines keep their lengths, for the names of anonymous components)
        return a, "pragma circom 2.1.6;\n/*" + " " * 20 + "*/\n" + re.sub(r"template custom ", "template        ", body)


FL = [["--O0"], ["--O1"], ["--O2"], ["--O2round", "1"]]


def sections(a, res):
    r = random.Random(a["seed"])
    pn = r.choice(["bn128", "bn128", "bls12381", "goldilocks", "secq256r1"])
    g = Gen(r, PRIMES[pn])
    text, plain = g.texts()
    fl = r.choice(FL)
    run = r.random() < .3
    d, d0, key = a["dir"] + "/a", a["dir"] + "/b", "sections/%d" % a["seed"]
    rep = dict(program=text, flags=fl, prime=pn)
    x = circom(text, fl + ["--r1cs", "--sym", "--prime", pn] + (["--wasm"] if run else []), d)
    if x.timeout: res.inc("compile timeout"); return
    res.ev()
    if x.rc: res.viol(key + "/accept", "a program with custom templates is rejected: %s" % (x.text + x.err).strip()[-600:], **rep); return
    y = circom(plain, ["--O0", "--r1cs", "--sym", "--prime", pn], d0)
    if y.timeout: res.inc("compile timeout"); return
    if y.rc: res.cnt("plain_rejected"); res.viol(key + "/plain", "the same program without custom is rejected: %s" % (y.text + y.err).strip()[-600:], **rep); return
    R, R0 = read_r1cs(d + "/c.r1cs"), read_r1cs(d0 + "/c.r1cs")
    if R0.sections and 4 in R0.sections: res.viol(key + "/extra", "a program without custom templates has custom gate sections", **rep); return
    if 4 not in R.sections: res.viol(key + "/missing", "no custom gate sections", **rep); return
    sym, sym0 = read_sym(d + "/c.sym"), read_sym(d0 + "/c.sym")
    if [(l, n) for l, w, c, n in sym] != [(l, n) for l, w, c, n in sym0]: res.viol(key + "/labels", "other signals or labels than without custom", **rep); return
    wire = {n: w for l, w, c, n in sym}
    # applications
    want, used = Counter(), Counter()
    for pre, gate, n, v1, v2 in g.main[3]:
        k, nm, dd, b = gate.sigs[0]
        c0 = nm + cells(dd, b, n)[0]
        hit = [x[:len(x) - len(c0) - 1] for x in wire if re.fullmatch("main\\." + pre + re.escape("." + c0), x)]
        if len(hit) != 1: res.viol(key + "/path", "%d components where one instance of %s is expected (%s)" % (len(hit), gate.name, pre), **rep); return
        ws = []
        for k, nm, dd, b in gate.sigs:
            for c in cells(dd, b, n):
                w = wire.get("%s.%s%s" % (hit[0], nm, c))
                if w is None: res.viol(key + "/signal", "no signal %s.%s%s" % (hit[0], nm, c), **rep); return
                if w < 0: res.viol(key + "/eliminated", "%s: signal %s.%s%s of a custom template is eliminated" % (" ".join(fl), hit[0], nm, c), **rep); return
                ws.append(w)
        want[gate.name, tuple(v1), tuple(v2), tuple(ws)] += 1
        used[gate.name, tuple(v1), tuple(v2)] += 1
        res.cnt("gate_signals", len(ws))
    same = lambda a, b: a[0] == b[0] and tuple(b[1]) in (a[1], a[2])
    left = Counter(want)
    for idx, ws in R.gates_applied:
        if idx >= len(R.gates_used): res.viol(key + "/index", "application of gate %d of %d" % (idx, len(R.gates_used)), **rep); return
        u = R.gates_used[idx]
        h = [q for q in left if left[q] and same(q, u) and q[3] == tuple(ws)]
        if not h: res.viol(key + "/application", "%s: the file has an application of %s%s to wires %s that is not in the program; expected %s" % (" ".join(fl), u[0], u[1], ws, [(q[0], q[1], q[3]) for q in left if left[q]][:4]), **rep); return
        left[h[0]] -= 1
    if any(left.values()): res.viol(key + "/unapplied", "applications missing: %s" % [(q[0], q[1], q[3]) for q in left if left[q]][:4], **rep); return
    kinds = {q for q in used}
    for u in R.gates_used:
        if not any(same(q, u) for q in kinds): res.viol(key + "/list", "the list of custom gates has %s%s, which the program does not use" % u, **rep); return
    for q in kinds:
        if not any(same(q, u) for u in R.gates_used): res.viol(key + "/list", "the list of custom gates lacks %s%s" % (q[0], list(q[1])), **rep); return
    # constraints
    if fl == ["--O0"]:
        if R.cons != R0.cons: res.viol(key + "/constraints", "constraints other than those of the program without custom", **rep); return
        res.cnt("systems_identical")
    else:
        m, info = project(label_polys(R0), label_polys(R), set(R.labels), R0.p)
        if m: res.viol(key + "/projection", "%s: %s" % (" ".join(fl), m), **rep); return
        res.cnt("systems_projected")
    if run:
        p = PRIMES[pn]
        ins = [{"i": [str(r.choice([0, 1, 2, p - 1, r.randrange(p)])) for _ in range(g.main[1])]} for _ in range(3)]
        for i, w in zip(ins, Wasm.get().run(d, "c", ins)):
            if w["w"] is None: res.cnt("refused"); continue
            v = w["w"]
            ev = lambda lc: sum(v[k] * q for k, q in lc.items())
            if any((ev(A) * ev(B) - ev(C)) % p for A, B, C in R.cons): res.viol(key + "/witness", "the witness violates a constraint", input=i, **rep); return
            res.cnt("witnesses")
    res.cnt("applications", len(R.gates_applied)); res.cnt("gates_listed", len(R.gates_used))
    res.seen((a["seed"],), {"flags": fl, "prime": pn, "gates": len(R.gates_used), "applications": len(R.gates_applied), "wires": R.nwires})


BAD = ["y <== x;", "x ==> y;", "y <-- x; y === x;", "y <-- x; x * x === y;", "component h = H(); y <-- x;", "component h[2]; y <-- x;", "y <== H()(x);", "y <-- x; _ <== x;", "y <-- x; signal w <== x;", "y <-- x; signal w; w <== x * x;", "y <-- x; signal w, v; (w, v) <== (x, x);",
       "y <-- x; B0() bb; bb.x <== x;", "y <-- x; b === b;", "y <-- x; B0() bb <== b;", "y <-- x; B0() bb; bb <== b;", "y <-- x; t[1] <== x;", "y <-- x; 1 === 1;", "y <-- x; signal w <== H()(x);", "y <-- x; G2(2)(x) ==> s2_;", "y <-- x; component parallel_ = parallel H();", "y <-- x; component h = G2(2);"]
GOOD = ["y <-- x;", "x --> y;", "y <-- x * x;", "var v = x; y <-- v;", "signal w; w <-- x; y <-- w;", "signal w <-- x; y <-- w;", "y <-- x; assert(x == x);", "y <-- x; log(x);", "if (x == 1) { y <-- 1; } else { y <-- 2; }", "y <-- f(x);", "B0() bb; bb.x <-- x; bb.y[0] <-- 1; bb.y[1] <-- 2; y <-- x;", "(y, _) <-- (x, 1);", "y <-- x ? 1 : 2;", "var k[2] = [1, 2]; y <-- k[x % 2];", "for (var i = 0; i < 2; i++) { if (i == 1) { y <-- x; } }", "while (1 < 0) { y <-- x; }"]


def verdicts(a, res):
    r = random.Random(a["seed"])
    defs = BUSES + "template H() { signal input a; signal output b; b <== a * a; }\nfunction f(a) { return a * a; }\n" + "template custom G2(n) { signal input a; signal output b; b <-- a; }\n"

    def full(stmt, nested, pragma=True, custom=True):
        if nested is not None:
            w = Wrap(random.Random(nested)); stmt = w.nest(stmt) if "log(" in stmt or True else stmt
        g = "template %s G(N) {\n  signal input x; B0() input b; signal output y; signal output t[2]; t[0] <-- x; t[1] <-- N;\n  %s\n}\n" % ("custom" if custom else "", stmt.replace("t[1] <==", "t[0] <==") )
        m = "template M() { signal input i; signal output o; component g = G(3); g.x <== i; g.b.x <== 1; g.b.y[0] <== i; g.b.y[1] <== i * i; o <== g.y; component q = G2(1); q.a <== i; }\n"
        ds = [defs, g, m]
        r2 = random.Random(a["seed"]); r2.shuffle(ds)
        return "pragma circom 2.1.6;\n" + ("pragma custom_templates;\n" if pragma else "") + "".join(ds) + "component main = M();\n"
    bad, good = r.choice(BAD), r.choice(GOOD)
    nest = r.getrandbits(20) if r.random() < .6 else None
    key = "verdicts/%d" % a["seed"]
    # (y is assigned by the allowed statements once, as in the others)
    if r.random() < .85:
        if pair(res, a, key, r, full(good, None), full(bad, nest), "custom template with `%s`" % bad, flags=r.choice([["--O0"], ["--O2", "--r1cs"], ["--O1", "--r1cs", "--sym"], ["--O0", "--wasm"]])): res.seen((bad, good, nest is None), {"forbidden": bad, "allowed": good})
    else:
        if pair(res, a, key, r, full(good, None), full(good, None, pragma=False), "custom templates without the pragma"): res.seen(("pragma", good), {"forbidden": "no pragma", "allowed": good})


@guarded
def job(a, res): {"sections": sections, "verdicts": verdicts}[a["mode"]](a, res)


def body(c):
    c.rule = "a program with custom templates whose sections, wires and constraints were those of its instances, or a pair of an allowed and a forbidden custom template judged rightly"

    def items():
        for k in range(40000 if c.quick else 400000):
            yield dict(seed=c.rng.randrange(1 << 40), dir=c.scratch + "/%d" % k, mode="verdicts" if k % 4 == 3 else "sections")
    c.absorb(pmap(job, items(), deadline=c.budget(float(os.environ.get("B", "35")), 1200)))
    c.assumptions.append("the order of the parameters of a custom gate is accepted as declared or by name; the order of gates and applications is free")


if __name__ == "__main__":
    main("P30", body)
