"""Random programs with the signals of every constraint known, per template instance."""
import random

PREC = 10007  # (coefficients are small: equality modulo the primes is equality of integers)


class Poly:
    """at most one product of linear expressions plus a linear expression; None when not quadratic"""

    def __init__(self, lin=None, c=0, prod=None): self.lin, self.c, self.prod = lin or {}, c, prod


def lin_of(terms):
    """[(coef, leaf)] -> dict without zeros"""
    d = {}
    for c, l in terms:
        d[l] = d.get(l, 0) + c
        if not d[l]: del d[l]
    return d


class Decl:
    def __init__(self, kind, name, dims, bus=None): self.kind, self.name, self.dims, self.bus = kind, name, dims, bus

    def shape(self, n): return [n if d == "n" else d for d in self.dims]


class Tmpl:
    """name, decls, steps; run(n, k, t) gives the facts of the instance"""

    def __init__(self, name): self.name, self.decls, self.lines, self.steps, self.tag, self.subs = name, [], [], [], None, []


BUSF = {"Pt": [("x", [], None), ("y", [], None)], "Vc": [("v", [2], None), ("p", [], "Pt")]}
BUSES = "bus Pt() { signal x; signal y; }\nbus Vc() { signal v[2]; Pt() p; }\n"


def expand(name, dims, bus):
    if dims: return [x for i in range(dims[0]) for x in expand("%s[%d]" % (name, i), dims[1:], bus)]
    if bus: return [x for f, d, b in BUSF[bus] for x in expand(name + "." + f, d, b)]
    return [name]


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.ts = []
        for k in range(rng.choice([1, 2, 3, 4])): self.ts.append(self.template("T%d" % k, k))
        self.main = self.template("Main", 9, True)

    # a reference valid for every n: (text, fn(env) -> leaf)
    def elem(self, d):
        r, t, f = self.r, d.name, []
        for x in d.dims:
            if x == "n":
                c = r.choice(["0", "n - 1"])
                f.append((lambda e: 0) if c == "0" else (lambda e: e["n"] - 1))
                t += "[%s]" % c
            else:
                i = r.randrange(x); t += "[%d]" % i; f.append(lambda e, i=i: i)
        suf = ""
        b = d.bus
        while b:
            fn, fd, fb = r.choice(BUSF[b])
            suf += "." + fn + "".join("[%d]" % r.randrange(x) for x in fd)
            b = fb
        nm = d.name
        return t + suf, (lambda e: nm + "".join("[%d]" % g(e) for g in f) + suf)

    def template(self, name, level, main=False):
        r = self.r
        T = Tmpl(name)
        T.n = 0
        T.avail = []        # references that have a value: (text, fn)
        T.groups = []       # declarations that have a value as a whole
        T.params = not main
        dims = lambda: r.choice([[], [], [], [2], [3], [2, 2]] + ([["n"], ["n"]] if not main else []))
        for k in range(r.choice([1, 2, 3])):
            d = Decl("input", "i%d" % k, dims(), r.choice([None, None, None, "Pt", "Vc"]))
            T.decls.append(d); self.have(T, d)
        if not main and r.random() < .25:
            T.tag = "tin"
            d = Decl("input", "tin", []); T.decls.append(d); self.have(T, d)
        if not T.avail: d = Decl("input", "ix", []); T.decls.append(d); self.have(T, d)
        T.todo = []
        for k in range(r.choice([1, 2])): d = Decl("output", "o%d" % k, dims(), r.choice([None, None, None, "Pt"])); T.decls.append(d); T.todo.append(d)
        for k in range(r.choice([0, 1, 2, 4])): d = Decl("", "s%d" % k, dims(), r.choice([None, None, "Pt", "Vc"])); T.decls.append(d); T.todo.append(d)
        r.shuffle(T.todo)
        for d in T.decls: self.line(T, self.decl_text(T, d))
        for _ in range(r.choice([2, 4, 6, 9])): self.statement(T, level)
        if main:
            for s in self.ts:
                if not T.subs or r.random() < .4: self.sub(T, level)
        return T

    def have(self, T, d):
        T.groups.append(d)
        for _ in range(4): T.avail.append(self.elem(d))

    def decl_text(self, T, d):
        ds = "".join("[%s]" % x for x in d.dims)
        tag = "{mk} " if d.name == T.tag else ""
        if d.bus: return "%s() %s%s%s;" % (d.bus, d.kind + " " if d.kind else "", d.name, ds)
        return "signal %s%s%s%s;" % (d.kind + " " if d.kind else "", tag, d.name, ds)

    def line(self, T, text, step=None):
        T.lines.append(text)
        if step: T.steps.append((len(T.lines) - 1, step))

    # ---------------------------------------------------------------- expressions
    def lin(self, T, k=None, plain=False):
        """(text, fn(env) -> (terms, const)); plain: nothing cancels (a factor that is zero leaves the other in the constraint)"""
        r = self.r
        ts, fs = [], []
        for _ in range(k or r.choice([1, 1, 2, 3])):
            t, f = r.choice(T.avail)
            c = r.choice([0, 4, 8]) if plain else r.randrange(9)
            if c < 4: ts.append(t); fs.append(lambda e, f=f: [(1, f(e))])
            elif c == 4: ts.append("3 * %s" % t); fs.append(lambda e, f=f: [(3, f(e))])
            elif c == 5: ts.append("0 * %s" % t); fs.append(lambda e, f=f: [])
            elif c == 6 and T.params: ts.append("(k - 1) * %s" % t); fs.append(lambda e, f=f: [(e["k"] - 1, f(e))])
            elif c == 7: t2, f2 = r.choice(T.avail); ts.append("(%s - %s)" % (t, t2)); fs.append(lambda e, f=f, f2=f2: [(1, f(e)), (-1, f2(e))])
            else: ts.append("%s * (2 - 1)" % t); fs.append(lambda e, f=f: [(1, f(e))])
        c = r.choice([0, 0, 5])
        return " + ".join(ts + (["5"] if c else [])), (lambda e: (lin_of([x for f in fs for x in f(e)]), c))

    def quad(self, T):
        """(text, fn(env) -> (set of signals, linear part, const or None))  as (prod or None, lin, const)"""
        r = self.r
        t1, f1 = self.lin(T)
        if r.random() < .55: return t1, (lambda e: (None,) + f1(e))
        t2, f2 = self.lin(T, r.choice([1, 2]), True)
        t3, f3 = self.lin(T, r.choice([1, 2]), True)

        def fn(e):
            (a, ca), (b, cb), (l, c) = f2(e), f3(e), f1(e)
            if a and b: return (a, b), l, c
            # a constant factor
            if a: a, ca, b, cb = b, cb, a, ca
            return None, lin_of([(x, y) for y, x in l.items()] + [(ca * x, y) for y, x in b.items()]), c + ca * cb
        return "(%s) * (%s) + %s" % (t2, t3, t1), fn

    @staticmethod
    def signals(q, left=()):
        """signals of the constraint  left = q  (left: terms)"""
        prod, l, c = q
        l = lin_of([(-x, y) for y, x in l.items()] + list(left))
        s = set(l)
        if prod: s |= set(prod[0]) | set(prod[1])
        return s

    def nonquad(self, T):
        """an expression, and whether it could be constrained"""
        r = self.r
        if r.random() < .5: t, f = self.quad(T); return t, True
        a, b, c = (r.choice(T.avail)[0] for _ in range(3))
        return r.choice(["%s * %s * %s" % (a, b, c), "%s \\ 2" % a, "%s == 1" % a, "%s / %s" % (a, b), "%s < %s" % (a, b), "%s ** 3" % a, "%s >> 1" % a, "%s & 1" % a]), False

    # ---------------------------------------------------------------- statements
    def target(self, T):
        """(assignments of one declaration: [(text, leaf function)]) covering it completely, or the whole"""
        return T.todo.pop() if T.todo else None

    def statement(self, T, level):
        r = self.r
        k = r.randrange(12)
        if k < 5 and T.todo: self.assign(T)
        elif k == 5: self.equal(T)
        elif k == 6: self.under(T)
        elif k == 7 and T.params: self.branch(T)
        elif k < 10 and self.ts: self.sub(T, level)
        elif k == 10 and T.params: self.local(T)
        elif T.todo and r.random() < .6: self.assign(T)
        else: self.equal(T)

    def assign(self, T):
        r = self.r
        d = T.todo.pop()
        same = [g for g in T.groups if g.dims == d.dims and g.bus == d.bus]
        h = r.random()
        if same and h < .5 and (d.dims or d.bus):
            g = r.choice(same)
            if r.random() < .65: self.line(T, "%s <== %s;" % (d.name, g.name), lambda e: dict(cons=[{a, b} for a, b in zip(expand(d.name, d.shape(e["n"]), d.bus), expand(g.name, g.shape(e["n"]), g.bus))]))
            else: self.line(T, "%s <-- %s;" % (d.name, g.name), lambda e: dict(arrow="maybe"))
            self.have(T, d)
            return
        if "n" in d.dims and not d.bus:
            # one dimension n: a loop, maybe leaving some positions
            mode = r.choice(["<==", "<--", "<=="])
            t, f = self.quad(T)
            lo = r.choice([0, 0, 1])
            if mode == "<==": self.line(T, "for (var i = %d; i < n; i++) { %s[i] <== %s; }" % (lo, d.name, t), lambda e: dict(cons=[self.signals(f(e), [(1, "%s[%d]" % (d.name, i))]) for i in range(lo, e["n"])]))
            else: self.line(T, "for (var i = %d; i < n; i++) { %s[i] <-- %s; }" % (lo, d.name, t), lambda e: dict(arrow=e["n"] > lo))
            if lo == 0: self.have(T, d)
            return
        if "n" in d.dims: return
        # leaf by leaf
        full = True
        for l in expand(d.name, d.dims, d.bus):
            h = r.random()
            if h < .5:
                t, f = self.quad(T)
                if r.random() < .2: self.line(T, "%s ==> %s;" % (t, l), lambda e, l=l, f=f: dict(cons=[self.signals(f(e), [(1, l)])]))
                else: self.line(T, "%s <== %s;" % (l, t), lambda e, l=l, f=f: dict(cons=[self.signals(f(e), [(1, l)])]))
            elif h < .85:
                t, q = self.nonquad(T)
                self.line(T, "%s <-- %s;" % (l, t), lambda e, q=q: dict(arrow=q))
            else: full = False; continue
            T.avail.append((l, lambda e, l=l: l))
        if full: T.groups.append(d)

    def equal(self, T):
        r = self.r
        if r.random() < .3:
            g = [x for x in T.groups if x.dims and not x.bus]
            if g:
                a = r.choice(g)
                b = r.choice([x for x in g if x.dims == a.dims])
                self.line(T, "%s === %s;" % (a.name, b.name), lambda e: dict(cons=[({x, y} if x != y else set()) for x, y in zip(expand(a.name, a.shape(e["n"]), None), expand(b.name, b.shape(e["n"]), None))]))
                return
        t1, f1 = self.lin(T)
        t2, f2 = self.quad(T)
        if r.random() < .3: self.line(T, "var v%d = %s; v%d === %s;" % (len(T.lines), t1, len(T.lines), t2), lambda e: dict(cons=[self.signals(f2(e), [(c, l) for l, c in f1(e)[0].items()])]))
        else: self.line(T, "%s === %s;" % (t1, t2), lambda e: dict(cons=[self.signals(f2(e), [(c, l) for l, c in f1(e)[0].items()])]))

    def under(self, T):
        r = self.r
        h = r.random()
        if h < .5 and T.groups:
            g = r.choice(T.groups)
            self.line(T, "_ <== %s;" % g.name, lambda e: dict(under=set(expand(g.name, g.shape(e["n"]), g.bus))))
        else:
            t, f = r.choice(T.avail)
            self.line(T, "_ <== %s;" % t, lambda e: dict(under={f(e)}))

    def branch(self, T):
        """statements below a known condition"""
        r = self.r
        v = r.choice([1, 2])
        cond, cf = r.choice([("k == %d" % v, lambda e: e["k"] == v), ("n > %d" % v, lambda e: e["n"] > v), ("k != n", lambda e: e["k"] != e["n"])] + ([("tin.mk == %d" % v, lambda e: e["t"] == v)] * 3 if T.tag else []))
        t, f = self.quad(T); a, g = r.choice(T.avail)
        t2, q = self.nonquad(T)
        k = r.randrange(4)
        if k == 0: self.line(T, "if (%s) { %s === %s; }" % (cond, a, t), lambda e: dict(cons=[self.signals(f(e), [(1, g(e))])]) if cf(e) else {})
        elif k == 1: self.line(T, "if (%s) { } else { %s === %s; }" % (cond, a, t), lambda e: {} if cf(e) else dict(cons=[self.signals(f(e), [(1, g(e))])]))
        elif k == 2: self.line(T, "if (%s) { _ <== %s; } else { %s === %s; }" % (cond, a, a, t), lambda e: dict(under={g(e)}) if cf(e) else dict(cons=[self.signals(f(e), [(1, g(e))])]))
        elif T.todo:
            d = T.todo[-1]
            if d.dims or d.bus: return
            T.todo.pop()
            self.line(T, "if (%s) { %s <== %s; } else { %s <-- %s; }" % (cond, d.name, t, d.name, t2), lambda e: dict(cons=[self.signals(f(e), [(1, d.name)])]) if cf(e) else dict(arrow=q))
            T.avail.append((d.name, lambda e: d.name))

    def local(self, T):
        """a signal that exists in one branch only"""
        r = self.r
        v = r.choice([1, 2])
        nm = "b%d" % len(T.lines)
        t, f = self.quad(T)
        if r.random() < .5: self.line(T, "if (k == %d) { signal %s <== %s; }" % (v, nm, t), lambda e: dict(cons=[self.signals(f(e), [(1, nm)])], decl=[nm]) if e["k"] == v else {})
        else: self.line(T, "if (k == %d) { signal %s[2]; %s[1] <-- %s; }" % (v, nm, nm, t), lambda e: dict(decl=[nm + "[0]", nm + "[1]"], arrow=True) if e["k"] == v else {})

    def sub(self, T, level):
        """an instance of an earlier template, or an array of them"""
        r = self.r
        S = r.choice(self.ts)
        arr = r.choice([0, 0, 0, 2])
        nm = "c%d" % len(T.lines)
        args = lambda: [r.choice(["1", "2", "3"] + (["n", "n"] if T.params else [])), r.choice(["1", "2"] + (["k", "3 - k"] if T.params else []))]
        ev = lambda x, e: e["k"] if x == "k" else e["n"] if x == "n" else 3 - e["k"] if x == "3 - k" else int(x)
        T.subs.append(S)
        insts = []
        a = [args() for _ in range(max(1, arr))]
        if not arr and S.tag is None and r.random() < .35 and not any("n" in d.dims for d in S.decls if d.kind):
            # anonymous: every input is constrained; so is every output, or marked as unused
            ins = [d for d in S.decls if d.kind == "input"]
            vals, cons = [], []
            for d in ins:
                if not d.dims and not d.bus:
                    t, f = self.lin(T); vals.append(t)
                    cons.append(lambda e, f=f: set(f(e)[0]))
                else:
                    g = [x for x in T.groups if x.dims == d.dims and x.bus == d.bus]
                    if not g: return
                    g = r.choice(g); vals.append(g.name)
                    cons.append(lambda e, g=g: set(expand(g.name, g.shape(e["n"]), g.bus)))
            nout = sum(d.kind == "output" for d in S.decls)
            us = "_" if nout == 1 else "(" + ", ".join("_" for _ in range(nout)) + ")"
            self.line(T, "%s <== %s(%s, %s)(%s);" % (us, S.name, a[0][0], a[0][1], ", ".join(vals)), lambda e: dict(cons=[c(e) for c in cons], inst=[(S, ev(a[0][0], e), ev(a[0][1], e), None, None)]))
            return
        names = ["%s[%d]" % (nm, i) for i in range(arr)] if arr else [nm]
        if arr: self.line(T, "component %s[%d];" % (nm, arr))
        tv = [r.choice([1, 2]) for _ in names]
        for x, (p, q), t in zip(names, a, tv):
            self.line(T, "%s%s = %s(%s, %s);" % ("" if arr else "component ", x, S.name, p, q), lambda e, x=x, p=p, q=q, t=t: dict(inst=[(S, ev(p, e), ev(q, e), t if S.tag else None, x)]))
        for x, (p, q), tval in zip(names, a, tv):
            for d in S.decls:
                if d.kind != "input": continue
                if d.name == S.tag:
                    self.line(T, "signal {mk} y%d; y%d.mk = %d;" % (len(T.lines), len(T.lines), tval), lambda e, y="y%d" % len(T.lines): dict(decl=[y]))
                    y = "y%d" % (len(T.lines) - 1)
                    tt, f = self.quad(T)
                    self.line(T, "%s <== %s;" % (y, tt), lambda e, y=y, f=f: dict(cons=[self.signals(f(e), [(1, y)])]))
                    self.line(T, "%s.tin <== %s;" % (x, y), lambda e, y=y, x=x: dict(cons=[{x + ".tin", y}]))
                    continue
                same = [g for g in T.groups if g.bus == d.bus and g.dims == [({"n": "n"}.get(p, int(p) if p.isdigit() else None) if z == "n" else z) for z in d.dims]]
                op = r.choice(["<==", "<==", "<--"])
                if same and (d.dims or d.bus) and r.random() < .6:
                    g = r.choice(same)
                    f = (lambda e, x=x, d=d, g=g: dict(cons=[{u, w} for u, w in zip(expand(x + "." + d.name, g.shape(e["n"]), d.bus), expand(g.name, g.shape(e["n"]), g.bus))])) if op == "<==" else (lambda e: dict(arrow="maybe"))
                    self.line(T, "%s.%s %s %s;" % (x, d.name, op, g.name), f)
                    continue
                if "n" in d.dims and not d.bus:
                    t, f = self.lin(T)
                    self.line(T, "for (var i = 0; i < %s; i++) { %s.%s[i] %s %s; }" % (p, x, d.name, op, t), (lambda e, x=x, d=d, f=f, p=p: dict(cons=[self.signals((None,) + f(e), [(1, "%s.%s[%d]" % (x, d.name, i))]) for i in range(ev(p, e))])) if op == "<==" else (lambda e: dict(arrow=True)))
                    continue
                if "n" in d.dims:
                    # an array of buses: position by position
                    for l in expand("", [], d.bus):
                        t, f = self.lin(T)
                        self.line(T, "for (var i = 0; i < %s; i++) { %s.%s[i]%s <== %s; }" % (p, x, d.name, l, t), lambda e, x=x, d=d, f=f, p=p, l=l: dict(cons=[self.signals((None,) + f(e), [(1, "%s.%s[%d]%s" % (x, d.name, i, l))]) for i in range(ev(p, e))]))
                    continue
                for l in expand(x + "." + d.name, d.dims, d.bus):
                    op = r.choice(["<==", "<==", "<--"])
                    t, f = self.lin(T)
                    self.line(T, "%s %s %s;" % (l, op, t), (lambda e, l=l, f=f: dict(cons=[self.signals((None,) + f(e), [(1, l)])])) if op == "<==" else (lambda e: dict(arrow=True)))
        # outputs become available, unless nobody assigned them (they have a value all the same)
        for x, (p, q) in zip(names, a):
            for d in S.decls:
                if d.kind != "output": continue
                dd = Decl("", x + "." + d.name, [({"n": "n"}.get(p, int(p) if p.isdigit() else None) if z == "n" else z) for z in d.dims], d.bus)
                if None in dd.dims: continue
                if r.random() < .8: self.have(T, dd)

    # ---------------------------------------------------------------- the program and its facts
    def text(self, pragma="pragma circom 2.2.0;\n"):
        out = pragma + BUSES
        self.where = {}
        for T in self.ts + [self.main]:
            out += "template %s(%s) {\n" % (T.name, "n, k" if T.params else "")
            for i, l in enumerate(T.lines):
                self.where[(T.name, i)] = out.count("\n") + 1
                out += "  %s\n" % l
            out += "}\n"
        return out + "component main = Main();\n"

    def facts(self):
        """instances: (template, n, k, t) -> dict(unconstrained local groups, unconstrained sub groups), lines of '<--' that could be '<=='"""
        todo, seen, out, arrows, maybe = [(self.main, 0, 0, None)], set(), [], set(), set()
        while todo:
            T, n, k, t = key = todo.pop()
            if (T.name, n, k, t) in seen: continue
            seen.add((T.name, n, k, t))
            e = dict(n=n, k=k, t=t)
            loc = [l for d in T.decls for l in expand(d.name, d.shape(n), d.bus)]
            sub, used = [], set()
            for i, f in T.steps:
                x = f(e)
                for c in x.get("cons", ()): used |= c
                used |= x.get("under", set())
                loc += x.get("decl", [])
                if x.get("arrow") == "maybe": maybe.add(self.where[(T.name, i)])
                elif x.get("arrow"): arrows.add(self.where[(T.name, i)])
                for S, sn, sk, st, nm in x.get("inst", ()):
                    todo.append((S, sn, sk, st))
                    if nm: sub += [l for d in S.decls if d.kind for l in expand(nm + "." + d.name, d.shape(sn), d.bus)]
            gr = {}
            for kind, names in (("local", loc), ("sub", sub)):
                for l in names:
                    if l in used: continue
                    h, _, last = l.rpartition(".")
                    g = (h + "." if h else "") + last.split("[")[0]
                    gr.setdefault((kind, g), []).append(l)
            out.append(((T.name, n, k, t), gr, used))
        return out, arrows, maybe
