"""P24: anonymous components and tuples mean their expansion."""
import os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap
from vlib.case import guarded
from vlib.drive import PS
from vlib.equiv import compare
from vlib.field import Field
from vlib.accept import pair

SHAPES = ["", "", "", "[2]", "[3]", "[2][2]", "B", "B[2]"]
DIMS = {"": [], "[2]": [2], "[3]": [3], "[2][2]": [2, 2], "B": [], "B[2]": [2]}


def decl(kind, shape, name):
    """declaration of a wire"""
    if shape.startswith("B"): return "B() %s%s%s;" % (kind + " " if kind else "", name, shape[1:])
    return "signal %s%s%s;" % (kind + " " if kind else "", name, shape)


def scalars(shape, name):
    """scalar parts of a wire"""
    out = [name]
    for n in DIMS[shape]: out = ["%s[%d]" % (x, i) for x in out for i in range(n)]
    if shape.startswith("B"): out = [x + s for x in out for s in (".x", ".y[0]", ".y[1]")]
    return out


class T:
    """a template: parameters, inputs and outputs as (name, shape)"""

    def __init__(self, name, params, ins, outs, text): self.name, self.params, self.ins, self.outs, self.text = name, params, ins, outs, text


class Gen:
    def __init__(self, r):
        self.r, self.n = r, 0
        self.ts = []
        for k in range(r.choice([3, 5, 7])): self.ts.append(self.leaf(k))

    def nm(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def leaf(self, k):
        r = self.r
        ins = [(r.choice(["a", "b", "in", "z", "x", "c_", "Q"]) + str(i), r.choice(SHAPES)) for i in range(r.choice([1, 1, 2, 2, 3, 4]))]
        if r.random() < .05: ins = []
        outs = [(r.choice(["o", "out", "y", "a", "w"]) + "_%d" % i, r.choice(SHAPES)) for i in range(r.choice([0, 1, 1, 1, 1, 2, 2, 3]))]
        params = ["n", "m"][:r.choice([0, 0, 1, 2])]
        ds = [("input", x) for x in ins] + [("output", x) for x in outs]
        r.shuffle(ds)
        ins = [x for d, x in ds if d == "input"]; outs = [x for d, x in ds if d == "output"]
        t = "".join("  %s\n" % decl(d, x[1], x[0]) for d, x in ds)
        # one declaration for several signals
        sc = [s for n, sh in ins for s in scalars(sh, n)] or ["3"]
        body = ""
        for n, sh in outs:
            for s in scalars(sh, n):
                body += "  %s <== %s * %s + %s * %s;\n" % (s, r.choice(sc), r.choice(sc), r.choice(params + ["2", "5"]), r.choice(sc))
        if not outs or r.random() < .3:
            body += "  signal mid; mid <== %s * %s;\n  mid === %s * %s;\n" % (sc[0], sc[-1], sc[-1], sc[0])
            if r.random() < .4 and len(sc) > 1: body += "  signal mi2; mi2 <-- %s; mi2 * 1 === %s;\n" % (sc[1], sc[1])
        name = r.choice(["T", "L_", "Anon", "t_1_"]) + "%d" % k
        return T(name, params, ins, outs, "template %s(%s) {\n%s%s}\n" % (name, ", ".join(params), t, body))


class Body:
    """statements of one template in both forms"""

    def __init__(self, g, name, ins):
        self.g, self.r = g, g.r
        self.k = 0                      # anonymous components so far, in the order of the text
        self.s, self.e, self.decls = [], [], []
        self.have = {}                  # shape -> texts that denote a wire of that shape
        self.vars = []
        self.lin = lambda: None
        for n, sh in ins: self.own(n, sh)
        self.base = list(self.have.get("", [])) or ["1"]
        self.loop = None                # (index text, size) inside a loop
        self.outs = []

    def own(self, n, sh):
        self.have.setdefault(sh, []).append(n)
        if sh == "[2][2]": self.have.setdefault("[2]", []).append(n + "[1]")
        if sh == "B[2]": self.own(n + "[0]", "B"); return
        if sh == "B": self.have.setdefault("[2]", []).append(n + ".y"); self.have.setdefault("", []).append(n + ".x")
        elif not sh.startswith("B"): self.have.setdefault("", []).append(scalars(sh, n)[-1])

    def expr(self, sh, depth, direct=False):
        """(sugared text, statements before the expansion, expanded text) for a value of the shape"""
        r, g = self.r, self.g
        if depth > 0 and r.random() < .6:
            c = [t for t in g.ts if len(t.outs) == 1 and t.outs[0][1] == sh]
            if c:
                s, pre, outs = self.anon(r.choice(c), depth - 1)
                return s, pre, outs[0]
        if not sh.startswith("B"):
            if sh == "[2]" and r.random() < .5 or sh == "[3]" and r.random() < .4 or sh == "[2][2]" and r.random() < .4:
                n, sub = (3, "") if sh == "[3]" else (2, "") if sh == "[2]" else (2, "[2]")
                ps = [self.expr(sub, depth) for _ in range(n)]
                return "[" + ", ".join(p[0] for p in ps) + "]", [x for p in ps for x in p[1]], "[" + ", ".join(p[2] for p in ps) + "]"
            if sh == "" and r.random() < .5:
                t = self.scalar()
                return t, [], t
        h = self.have.get(sh)
        if h:
            t = r.choice(h)
            return t, [], t
        if sh.startswith("B"): return self.bus(sh)
        ps = [self.scalar() for _ in scalars(sh, "_")]
        if sh == "[2][2]": t = "[[%s, %s], [%s, %s]]" % tuple(ps)
        else: t = "[" + ", ".join(ps) + "]"
        return t, [], t

    def bus(self, sh):
        """a bus wire of our own"""
        n = self.g.nm("bb")
        d = decl("", sh, n) + " " + " ".join("%s <== %s + %d;" % (s, self.r.choice(self.base), self.r.randrange(9)) for s in scalars(sh, n))
        self.decls.append(d)
        self.own(n, sh)
        return n, [], n

    def scalar(self):
        r = self.r
        h = [x for x in self.have.get("", [])] or ["1"]
        k = r.random()
        x, y = r.choice(h), r.choice(h)
        if k < .4: return x
        if k < .5: return str(r.randrange(100))
        if k < .6 and self.vars: return r.choice(self.vars)
        if k < .8: return "%d * %s - %s" % (r.randrange(1, 9), x, y)
        if k < .9: return "%s * %s + 2" % (x, y)
        return "(%s + %d)" % (x, r.randrange(5))

    def anon(self, t, depth):
        """(sugared, statements, [expanded outputs])"""
        r = self.r
        k, self.k = self.k, self.k + 1
        par = "parallel " if r.random() < .07 else ""
        ps = [r.choice(["1", "2", "7", "1 + 2", "3 ** 2"] + (["N", "N + 1"])) for _ in t.params]
        if self.loop:
            c = "z%d_[%s]" % (k, self.loop[0])
            self.decls.append("component z%d_[%d];" % (k, self.loop[1]))
        else:
            c = "z%d_" % k
            self.decls.append("component %s;" % c)
        pre = ["%s = %s%s(%s);" % (c, par, t.name, ", ".join(ps))]
        named = bool(t.ins) and r.random() < .4
        order = list(t.ins)
        if named: r.shuffle(order)
        args = []
        for n, sh in order:
            s, p, e = self.expr(sh, depth)
            args.append("%s <== %s" % (n, s) if named else s)
            pre += p + ["%s.%s <== %s;" % (c, n, e)]
        return "%s%s(%s)(%s)" % (par, t.name, ", ".join(ps), ", ".join(args)), pre, ["%s.%s" % (c, n) for n, _ in t.outs]

    def fresh(self, sh):
        """a wire declared for the statement: its text"""
        n = self.g.nm("s")
        if self.loop:
            self.decls_both.append(decl("", sh + "[%d]" % self.loop[1] if sh.startswith("B") else "[%d]" % self.loop[1] + sh, n) if sh != "B[2]" else "B() %s[%d][2];" % (n, self.loop[1]))
            return "%s[%s]" % (n, self.loop[0])
        if self.r.random() < .25:
            self.outs.append((n, sh)); self.decls_both.append(decl("output", sh, n))
        else: self.decls_both.append(decl("", sh, n))
        return n

    def stmt(self):
        """one statement in both forms"""
        r, g = self.r, self.g
        kind = r.choice(["one", "one", "one", "arrow", "tuple", "tuple", "tuple", "init", "var", "vars", "exprs", "exprs", "none", "under", "input", "vtuple", "comps", "nested"])
        S, E, new = [], [], []
        multi = [t for t in g.ts if len(t.outs) >= 2]
        single = [t for t in g.ts if len(t.outs) == 1]
        none = [t for t in g.ts if not t.outs]
        D = r.choice([0, 1, 1, 2])
        if kind in ("one", "arrow", "init") and single:
            t = r.choice(single)
            sh = t.outs[0][1]
            if kind == "init" and not self.loop and not sh.startswith("B"):
                n = g.nm("i"); s, p, o = self.anon(t, D)
                S = ["signal %s%s <== %s;" % (n, sh, s)]; E = ["signal %s%s;" % (n, sh)] + p + ["%s <== %s;" % (n, o[0])]; new = [(n, sh)]
            else:
                n = self.fresh(sh); s, p, o = self.anon(t, D)
                S = ["%s <== %s;" % (n, s) if kind != "arrow" else "%s ==> %s;" % (s, n)]; E = p + ["%s <== %s;" % (n, o[0])]; new = [(n, sh)]
        elif kind == "tuple" and multi:
            t = r.choice(multi)
            tg = []
            for n, sh in t.outs: tg.append("_" if r.random() < .25 else self.fresh(sh))
            s, p, o = self.anon(t, D)
            l = "(" + ", ".join(tg) + ")"
            S = [l + " <== " + s + ";" if r.random() < .8 else s + " ==> " + l + ";"]; E = p + ["%s <== %s;" % (x, y) for x, y in zip(tg, o) if x != "_"]; new = [(x, sh) for x, (_, sh) in zip(tg, t.outs) if x != "_"]
        elif kind == "nested" and multi:
            # flattened tuples
            t = r.choice(multi)
            a, b = self.fresh(""), self.fresh("")
            tg = [self.fresh(sh) for _, sh in t.outs]
            e1 = self.expr("", 0)
            s, p, o = self.anon(t, 0)
            e2 = self.expr("", 1)
            S = ["(%s, (%s), %s) <== (%s, %s, %s);" % (a, ", ".join(tg), b, e1[0], s, e2[0])]
            E = e1[1] + p + e2[1] + ["%s <== %s;" % (x, y) for x, y in zip([a] + tg + [b], [e1[2]] + o + [e2[2]])]; new = [(a, ""), (b, "")] + [(x, sh) for x, (_, sh) in zip(tg, t.outs)]
        elif kind == "exprs":
            n = r.choice([2, 2, 3])
            sh = [r.choice(SHAPES[:6]) for _ in range(n)]
            tg = [self.fresh(x) for x in sh]
            es = [self.expr(x, D) for x in sh]
            op = "<==" if any(p for _, p, _ in es) or r.random() < .7 else "<--"
            S = ["(%s) %s (%s);" % (", ".join(tg), op, ", ".join(e[0] for e in es))]
            E = [x for e in es for x in e[1]] + ["%s %s %s;" % (x, op, e[2]) for x, e in zip(tg, es)]; new = list(zip(tg, sh)) if op == "<==" else []
        elif kind == "var" and single:
            t = r.choice([t for t in single if not t.outs[0][1].startswith("B")] or [None])
            if t is None: return
            n = g.nm("v"); s, p, o = self.anon(t, D); sh = t.outs[0][1]
            if r.random() < .5: S = ["var %s%s = %s;" % (n, sh, s)]; E = ["var %s%s;" % (n, sh)] + p + ["%s = %s;" % (n, o[0])]
            else: S = ["var %s%s; %s = %s;" % (n, sh, n, s)]; E = ["var %s%s;" % (n, sh)] + p + ["%s = %s;" % (n, o[0])]
            u = self.fresh(sh)
            S.append("%s <== %s;" % (u, n)); E.append("%s <== %s;" % (u, n)); new = [(u, sh)]
        elif kind == "vars":
            t = r.choice([t for t in multi if all(not sh.startswith("B") for _, sh in t.outs)] or [None])
            if t is None: return
            vs = [g.nm("v") for _ in t.outs]
            s, p, o = self.anon(t, D)
            d = ["var %s%s;" % (v, sh) for v, (_, sh) in zip(vs, t.outs)]
            S = d + ["(%s) = %s;" % (", ".join(vs), s)]; E = d + p + ["%s = %s;" % (v, x) for v, x in zip(vs, o)]
            for v, (_, sh) in zip(vs, t.outs):
                u = self.fresh(sh); S.append("%s <== %s;" % (u, v)); E.append("%s <== %s;" % (u, v)); new.append((u, sh))
        elif kind == "vtuple":
            a, b, u = g.nm("v"), g.nm("v"), self.fresh("")
            e1, e2 = r.choice(["1", "N", "2 + N"]), r.choice(["%s + 1" % a, "2 * %s" % a, "7"])
            if r.random() < .5: S = ["var %s; var %s; (%s, %s) = (%s, %s);" % (a, b, a, b, e1, e2)]
            else: S = ["var (%s, %s) = (%s, %s);" % (a, b, e1, e2)]
            E = ["var %s; var %s; %s = %s; %s = %s;" % (a, b, a, e1, b, e2)]
            x = self.scalar()
            if not re.search(r"\w \* [a-z]", x) or re.match(r"\d", x): f = "%s <== %s * %s + %s;" % (u, a, b, x)
            else: f = "%s <== %s + %s;" % (u, a, b)
            S.append(f); E.append(f); new = [(u, "")]
        elif kind == "none" and none:
            s, p, o = self.anon(r.choice(none), D)
            # (a statement cannot begin with parallel)
            if s.startswith("parallel "): s = s[9:]; p[0] = p[0].replace("= parallel ", "= ")
            S = [s + ";"]; E = p
        elif kind == "under" and single:
            s, p, o = self.anon(r.choice(single), D)
            S = ["_ <== %s;" % s]; E = p
        elif kind == "input" and not self.loop:
            t = r.choice(g.ts)
            n = g.nm("k")
            S = ["component %s = %s(%s);" % (n, t.name, ", ".join("2" for _ in t.params))]; E = list(S)
            for i, sh in t.ins:
                s, p, e = self.expr(sh, D)
                S.append("%s.%s <== %s;" % (n, i, s)); E += p + ["%s.%s <== %s;" % (n, i, e)]
            new = [("%s.%s" % (n, o), sh) for o, sh in t.outs]
        elif kind == "comps" and not self.loop:
            t1, t2 = r.choice(g.ts), r.choice(g.ts)
            a, b = g.nm("k"), g.nm("k")
            c1, c2 = ("%s(%s)" % (t.name, ", ".join("3" for _ in t.params)) for t in (t1, t2))
            S = ["component %s; component %s; (%s, %s) = (%s, %s);" % (a, b, a, b, c1, c2)]; E = ["component %s; component %s; %s = %s; %s = %s;" % (a, b, a, c1, b, c2)]
            for n, t in ((a, t1), (b, t2)):
                for i, sh in t.ins:
                    s, p, e = self.expr(sh, 0)
                    S.append("%s.%s <== %s;" % (n, i, s)); E += p + ["%s.%s <== %s;" % (n, i, e)]
                new += [("%s.%s" % (n, o), sh) for o, sh in t.outs]
        return S, E, new

    def fill(self, n):
        r = self.r
        self.decls_both = []
        for _ in range(n):
            k = r.random()
            nb = len(self.decls_both)
            if k < .25:
                # a loop, maybe with a condition or a loop inside
                i, j = self.g.nm("i"), self.g.nm("j")
                N = r.choice([1, 2, 3])
                two = r.random() < .3
                self.loop = (("%s * 2 + %s" % (i, j)) if two else i, N * 2 if two else N)
                S, E = [], []
                have = {k: list(v) for k, v in self.have.items()}
                for _ in range(r.choice([1, 1, 2])):
                    x = self.stmt()
                    if not x or not x[0]: continue
                    s, e = " ".join(x[0]), " ".join(x[1])
                    if r.random() < .25:
                        c = r.choice(["%s != 1" % i, "%s < N" % i, "%s %% 2 == 0" % i])
                        s, e = "if (%s) { %s }" % (c, s), "if (%s) { %s }" % (c, e)
                    S.append(s); E.append(e)
                self.have = have
                w = r.choice(["for (var %s = 0; %s < %d; %s++) {\n    %%s\n  }" % (i, i, N, i), "var %s = 0; while (%s < %d) {\n    %%s\n    %s += 1; }" % (i, i, N, i)])
                if two: w = w.replace("%s", "for (var %s = 0; %s < 2; %s++) { %%s }" % (j, j, j))
                self.loop = None
                self.s.append(w % " ".join(S)); self.e.append(w % " ".join(E))
                continue
            save = {k: list(v) for k, v in self.have.items()}
            x = self.stmt()
            if not x or not x[0]: continue
            S, E, new = x
            if k < .4 and not any(re.match(r"(signal|component|var)\b", y) for y in S):
                w = r.choice(["if (N == 3) { %s }", "if (N < 3) { } else { %s }", "{ %s }", "if (N > 1) { { %s } } else { log(1); }"])
                self.s.append(w % " ".join(S)); self.e.append(w % " ".join(E))
            else: self.s += S; self.e += E
            for n, sh in new: self.own(n, sh)

    def texts(self, name, ins):
        # the wires both forms declare come first, in the same order
        head = "".join("  %s\n" % decl("input", sh, n) for n, sh in ins)
        pre = "".join("  %s\n" % d for d in self.decls_both)
        buses = "".join("  %s\n" % d for d in self.decls if not d.startswith("component z"))
        comps = "".join("  %s\n" % d for d in self.decls if d.startswith("component z"))
        f = lambda c, b: "template %s(N) {\n%s%s%s%s%s}\n" % (name, head, pre, buses, c, "".join("  %s\n" % x for x in b))
        return f("", self.s), f(comps, self.e)


SEG = re.compile(r"^(?:z(\d+)_|\w+_(\d+)_(\d+))((?:\[\d+\])*)$")


def canon(names):
    """anonymous components and the components z<k>_ of the expansion are numbered by their place among their siblings"""
    groups = {}
    for n in names:
        pre = ""
        for s in n.split(".")[:-1]:
            m = SEG.match(s)
            if m: groups.setdefault(pre, {}).setdefault(int(m.group(1) or m.group(3)), set()).add(s)
            pre += "." + s
    ren = {}
    for pre, g in groups.items():
        for i, k in enumerate(sorted(g)):
            for j, s in enumerate(sorted(g[k], key=lambda s: [int(x) for x in re.findall(r"\[(\d+)\]", s)])): ren[(pre, s)] = "#%d~%d" % (i, j)
    out = {}
    for n in names:
        pre, o = "", []
        for s in n.split("."):
            o.append(ren.get((pre, s), s)); pre += "." + s
        out[n] = ".".join(o)
    return out


HEAD = "pragma circom 2.1.9;\nbus B() { signal x; signal y[2]; }\n"


def program(r):
    """(sugared, expanded, input shapes)"""
    g = Gen(r)
    mids = []
    for k in range(r.choice([0, 0, 1, 2])):
        ins = [("p%d" % i, r.choice(["", "", "[2]", "B"])) for i in range(r.choice([1, 2, 3]))]
        b = Body(g, "W%d" % k, ins)
        b.fill(r.choice([1, 2, 4]))
        mids.append(b.texts("W%d" % k, ins))
        g.ts.append(T("W%d" % k, ["N"], ins, b.outs, ""))
        # its parameter is 3 in every use: N has to be what the conditions expect
    ins = [("in%d" % i, r.choice(["", "", "[2]", "[3]", "[2][2]"])) for i in range(r.choice([1, 2, 3]))]
    b = Body(g, "M", ins)
    b.fill(r.choice([2, 4, 7]))
    s, e = b.texts("M", ins)
    defs = [t.text for t in g.ts if t.text]
    r.shuffle(defs)
    mk = lambda i, top: HEAD + "".join(defs) + "".join(m[i] for m in mids) + top + "component main = M(3);\n"
    return mk(0, s), mk(1, e), ins


@guarded
def job(a, res):
    r = random.Random(a["seed"])
    F = Field(a["prime"])
    s, e, ins = program(r)
    def val(d):
        if not d: return str(F.rand(r))
        return [val(d[1:]) for _ in range(d[0])]
    inputs = []
    for _ in range(2):
        i = {n: val(DIMS[sh]) for n, sh in ins}
        inputs.append((i, i))
    ok = compare(res, a, "%d/%s" % (a["seed"], a["prime"]), "sugared and expanded program", (s, e), (canon, canon), inputs, flags=["--O0"], quiet_reject=True)
    if ok:
        n = len(re.findall(r"z\d+_", e))
        res.cnt("anonymous_uses", len(set(re.findall(r"\bz\d+_", e))))
        res.seen((a["seed"], a["prime"]), {"seed": a["seed"], "anonymous": len(set(re.findall(r"\bz\d+_", e))), "signals": len(ok[0].set), "constraints": sum(ok[0].cons.values())})


def body(c):
    c.rule = "a program with anonymous components or tuples whose constraints and witnesses equal those of its expansion"

    def items():
        for k in range(200000):
            yield dict(seed=c.rng.randrange(1 << 40), prime="bn128" if k % 4 else PS[(k // 4) % len(PS)], dir=c.scratch + "/%d" % k, k=k)
    c.absorb(pmap(job, items(), deadline=c.budget(45, 1500)))


if __name__ == "__main__":
    main("P24", body)
