"""Random programs with buses, written at once with separate signals for the fields (and without parameters)."""


def sym(d, e): return e["n"] if d == "n" else d


class Ref:
    """accesses: [("i", text, fn(env))] and [("f", name)]; pre: component prefix (the same in both forms)"""

    def __init__(self, name, wire, accs, dims, bus, par, pre="", env=None):
        self.name, self.wire, self.accs, self.dims, self.bus, self.par, self.pre, self.env = name, wire, accs, tuple(dims), bus, par, pre, env

    def shape(self): return self.dims, self.bus, self.par if self.bus else None

    def text(self): return self.pre + self.name + "".join("[%s]" % a[1] if a[0] == "i" else "." + a[1] for a in self.accs)


class Wire:
    def __init__(self, kind, name, dims, bus=None, par=None): self.kind, self.name, self.dims, self.bus, self.par = kind, name, tuple(dims), bus, par


class T: pass


class Gen:
    def __init__(self, rng, eq=True):
        self.r, self.cnt, self.eq = rng, 0, eq
        r = rng
        self.buses = {}
        for i in range(r.choice([1, 2, 3])):
            fs = []
            for j in range(r.choice([1, 2, 2, 3])):
                b = r.choice(sorted(self.buses)) if self.buses and r.random() < .45 else None
                fs.append(("f%d" % j, r.choice([(), (), (2,), ("n",), (2, 2), ("n", 2)] if not b else [(), (), (2,), ("n",)]), b, r.choice(["n", 2, 1])))
            self.buses["B%d" % i] = fs
        self.ts = []
        for i in range(r.choice([0, 1, 1, 2])): self.ts.append(self.template("T%d" % i))
        self.main = self.template("Main", True)

    def name(self, p):
        self.cnt += 1
        return "%s%d" % (p, self.cnt)

    # ------------------------------------------------------------ flattening
    def flat(self, name, dims, bus, par, e):
        """[(name, dims)] of the signals, with numbers; e gives n"""
        dims = [sym(d, e) for d in dims]
        if not bus: return [(name, dims)]
        out = []
        def rec(nm, ds):
            if ds:
                for i in range(ds[0]): rec("%s__%d" % (nm, i), ds[1:])
            else:
                e2 = {"n": sym(par, e)}
                for f, d, b, p in self.buses[bus]: out.extend(self.flat("%s__%s" % (nm, f), d, b, p, e2))
        rec(name, dims)
        return out

    def fref(self, x, e):
        """texts of the signals (maybe arrays) a reference stands for"""
        w = x.wire
        # (the wires of a component have the n of the component)
        e0 = {"n": x.env(e)} if x.env else e
        name, dims, bus, par, ix = x.name, [sym(d, e0) for d in w.dims], w.bus, sym(w.par, e0) if w.bus else None, ""
        for a in x.accs:
            if a[0] == "i":
                v = a[2](e)
                if bus: name += "__%d" % v
                else: ix += "[%d]" % v
                dims = dims[1:]
            else:
                f, d, b, p = next(q for q in self.buses[bus] if q[0] == a[1])
                e1 = {"n": par}
                name += "__" + f; dims = [sym(z, e1) for z in d]; bus, par = b, sym(p, e1)
        if not bus: return [x.pre + name + ix]
        return [x.pre + q for q, _ in self.flat(name, dims, bus, par, {"n": 0})]

    def refs(self, w, pre="", env=None, dims=None, par=None):
        out = []
        def rec(accs, dims, bus, par):
            out.append(Ref(w.name, w, accs, dims, bus, par, pre, env))
            if len(accs) > 5: return
            if dims:
                for t, f in ([("0", lambda e: 0), ("n - 1", lambda e: e["n"] - 1)] if dims[0] == "n" else [(str(i), lambda e, i=i: i) for i in range(dims[0])]): rec(accs + [("i", t, f)], dims[1:], bus, par)
            elif bus:
                for f, d, b, p in self.buses[bus]: rec(accs + [("f", f)], [par if z == "n" else z for z in d], b, (par if p == "n" else p) if b else None)
        rec([], list(w.dims) if dims is None else list(dims), w.bus, w.par if par is None else par)
        return out

    # ------------------------------------------------------------ templates
    def template(self, name, main=False):
        r = self.r
        t = T()
        t.name, t.wires, t.steps, t.have, t.main, t.todo, t.uses, t.anon = name, [], [], [], main, [], 0, False
        t.n = ["n", 2, 2, 3] if not main else [1, 2, 3]
        dims = lambda q: r.choice([(), (), (2,), (3,)] + ([("n",)] if not main else []) + ([(2, 2)] if not q else []))
        def wire(kind, nm):
            b = r.choice(sorted(self.buses)) if r.random() < .7 else None
            return Wire(kind, nm, dims(b), b, r.choice(t.n) if b else None)
        for i in range(r.choice([1, 2, 3])): w = wire("input", "i%d" % i); t.wires.append(w); self.got(t, w)
        w = Wire("input", "z", ()); t.wires.append(w); self.got(t, w)
        for i in range(r.choice([1, 1, 2])): w = wire("output", "o%d" % i); t.wires.append(w); t.todo.append(w)
        for i in range(r.choice([0, 1, 2, 3])): w = wire("", "s%d" % i); t.wires.append(w); t.todo.append(w)
        # half of the wires have the type of another one
        for w in t.todo:
            if r.random() < .5: q = r.choice(t.wires); w.dims, w.bus, w.par = q.dims, q.bus, q.par
        r.shuffle(t.wires)
        t.decl = list(t.wires)
        t.shape = [(w, self.flatsig) for w in t.wires]
        for w in t.wires: self.add(t, self.decltext(w), lambda e, w=w: ["signal %s%s%s;" % (w.kind + " " if w.kind else "", n, "".join("[%d]" % d for d in ds)) for n, ds in self.flat(w.name, w.dims, w.bus, w.par, e)])
        for _ in range(r.choice([2, 4, 7])):
            k = r.randrange(10)
            if k < 4 and t.todo: self.fill(t)
            elif k < 7 and self.ts: self.comp(t, r.choice(self.ts))
            elif k == 7 and self.ts and not t.anon: self.anonymous(t, r.choice(self.ts))
            elif k == 8: self.equal(t)
            else: self.misc(t)
        while t.todo: self.fill(t)
        if main:
            for s in self.ts:
                if not s.uses: self.comp(t, s)
        if r.random() < .4: self.equal(t)
        return t

    def flatsig(self): pass

    def decltext(self, w):
        k = w.kind + " " if w.kind else ""
        ds = "".join("[%s]" % d for d in w.dims)
        return "%s(%s) %s%s%s;" % (w.bus, w.par, k, w.name, ds) if w.bus else "signal %s%s%s;" % (k, w.name, ds)

    def got(self, t, w): t.have += self.refs(w)

    def add(self, t, text, fn): t.steps.append((text, fn))

    def fill(self, t):
        w = t.todo.pop()
        x = Ref(w.name, w, [], w.dims, w.bus, w.par)
        s = self.assign(t, x, [])
        self.add(t, *s)
        self.got(t, w)

    # ------------------------------------------------------------ expressions
    def leaf(self, t, loops):
        """a leaf: Ref"""
        r = self.r
        if loops and r.random() < .6:
            v, n = r.choice(loops)
            c = [x for x in t.have if x.dims == (n,) and not x.bus]
            if c:
                x = r.choice(c)
                return self.at(x, ("i", v, lambda e: e[v]))
        return r.choice([x for x in t.have if x.shape() == ((), None, None)])

    def at(self, x, a):
        if a[0] == "i": return Ref(x.name, x.wire, x.accs + [a], x.dims[1:], x.bus, x.par, x.pre, x.env)
        f, d, b, p = next(q for q in self.buses[x.bus] if q[0] == a[1])
        return Ref(x.name, x.wire, x.accs + [a], [x.par if z == "n" else z for z in d], b, (x.par if p == "n" else p) if b else None, x.pre, x.env)

    def expr(self, t, loops, arrow=False):
        r = self.r
        xs = [self.leaf(t, loops) for _ in range(3)]
        f = r.choice(["{0}", "{0} + {1}", "{0} * {1} + {2}", "3 * {0} - {1}", "{0} * ({1} - {2})", "-{0}", "7 + {0}"] + (["{0} \\ 3", "{0} * {1} * {2}", "{0} < {1} ? {2} : 5", "{0} >> 1"] if arrow else []))
        return f.format(*[x.text() for x in xs]), lambda e: f.format(*[self.fref(x, e)[0] for x in xs])

    def unknown(self, t):
        """element at a position that depends on a signal"""
        r = self.r
        c = []
        for x in t.have:
            if len(x.dims) == 1 and isinstance(x.dims[0], int) and x.bus and not x.pre: c.append(x)
        if not c: return None
        x = r.choice(c)
        path, y = [], x.bus
        p = self.at(x, ("i", "0", lambda e: 0))
        for _ in range(4):
            if p.dims:
                if p.dims[0] == "n": path.append(("i", "0", lambda e: 0))
                else: i = r.randrange(p.dims[0]); path.append(("i", str(i), lambda e, i=i: i))
            elif p.bus: path.append(("f", r.choice(self.buses[p.bus])[0]))
            else: break
            p = self.at(p, path[-1])
        if p.dims or p.bus: return None
        q, n = self.leaf(t, []), x.dims[0]
        rest = "".join("[%s]" % a[1] if a[0] == "i" else "." + a[1] for a in path)

        def fn(e):
            o = []
            for i in range(n):
                z = self.at(x, ("i", str(i), lambda e, i=i: i))
                for a in path: z = self.at(z, a)
                o.append("(%s %% %d == %d) * %s" % (self.fref(q, e)[0], n, i, self.fref(z, e)[0]))
            return " + ".join(o)
        return "%s[%s %% %d]%s" % (x.text(), q.text(), n, rest), fn

    # ------------------------------------------------------------ assignments
    def assign(self, t, x, loops):
        """(text, fn(env) -> lines) that assigns all of x"""
        r = self.r
        if x.dims or x.bus:
            c = [y for y in t.have if y.shape() == x.shape()]
            if c and r.random() < .65:
                y = r.choice(c)
                op = "<--" if r.random() < .15 else "<=="
                f = (lambda a, b: "%s %s %s;" % (a, op, b)) if r.random() < .8 else (lambda a, b: "%s %s %s;" % (b, {"<==": "==>", "<--": "-->"}[op], a))
                return f(x.text(), y.text()), lambda e: [f(a, b) for a, b in zip(self.fref(x, e), self.fref(y, e))]
        if x.dims:
            if x.dims[0] == "n" or r.random() < .4:
                v = self.name("j")
                n = x.dims[0]
                tx, fn = self.assign(t, self.at(x, ("i", v, lambda e: e[v])), loops + [(v, n)])
                return "for (var %s = 0; %s < %s; %s++) { %s }" % (v, v, n, v, tx), lambda e: [l for i in range(sym(n, e)) for l in fn(dict(e, **{v: i}))]
            ps = [self.assign(t, self.at(x, ("i", str(i), lambda e, i=i: i)), loops) for i in range(x.dims[0])]
            if r.random() < .3: ps.reverse()
        elif x.bus:
            fs = [q[0] for q in self.buses[x.bus]]
            if r.random() < .4: r.shuffle(fs)
            ps = [self.assign(t, self.at(x, ("f", f)), loops) for f in fs]
        else:
            h = r.random()
            u = self.unknown(t) if h < .12 else None
            if u or h < .25: op, (tx, fn) = "<--", u or self.expr(t, loops, True)
            else: op, (tx, fn) = "<==", self.expr(t, loops)
            return "%s %s %s;" % (x.text(), op, tx), lambda e: ["%s %s %s;" % (self.fref(x, e)[0], op, fn(e))]
        return " ".join(p[0] for p in ps), lambda e: [l for p in ps for l in p[1](e)]

    def equal(self, t):
        r = self.r
        c = [x for x in t.have if x.bus or x.dims]
        if not c or not self.eq: return
        x = r.choice(c)
        ys = [y for y in c if y.shape() == x.shape() and y is not x]
        if not ys: return
        y = r.choice(ys)
        self.add(t, "%s === %s;" % (x.text(), y.text()), lambda e: ["%s === %s;" % p for p in zip(self.fref(x, e), self.fref(y, e))])

    def misc(self, t):
        r = self.r
        k = r.randrange(5)
        if k == 0: tx, fn = self.expr(t, [], True); self.add(t, "log(%s);" % tx, lambda e: ["log(%s);" % fn(e)])
        elif k == 1:
            v, q = self.name("v"), self.name("u")
            (a, fa), (b, fb) = self.expr(t, [], True), self.expr(t, [], True)
            f = "var %s = 1; if (%s == 1) { %s = %s; } signal %s; %s <-- %s + 1;"
            self.add(t, f % (v, a, v, b, q, q, v), lambda e: [f % (v, fa(e), v, fb(e), q, q, v)])
        elif k == 2:
            c = [x for x in t.have if len(x.dims) == 1 and not x.bus and isinstance(x.dims[0], int)]
            if c:
                x, v, q = r.choice(c), self.name("v"), self.name("u")
                f = "var %s[%d] = %s; signal %s; %s <== %s[%d] + 4;"
                i = r.randrange(x.dims[0])
                self.add(t, f % (v, x.dims[0], x.text(), q, q, v, i), lambda e: [f % (v, x.dims[0], self.fref(x, e)[0], q, q, v, i)])
        elif k == 3:
            q = self.name("u")
            (a, fa), (b, fb) = self.expr(t, []), self.expr(t, [])
            f = "signal %s; if (%s) { %s <== %s; } else { %s <== %s; }"
            g = "n > 1" if not t.main else "1 < 2"
            self.add(t, f % (q, g, q, a, q, b), lambda e: [f % (q, g, q, fa(e), q, fb(e))])
        else:
            c = [x for x in t.have if len(x.dims) == 1 and not x.bus]
            if c:
                # a function applied to a field
                x, q = r.choice(c), self.name("u")
                n = x.dims[0]
                f = "signal %s; %s <== addup(%s, %s);"
                self.add(t, f % (q, q, x.text(), n), lambda e: [f % (q, q, self.fref(x, e)[0], sym(n, e))])

    # ------------------------------------------------------------ components
    def comp(self, t, s):
        r = self.r
        s.uses += 1
        k = r.choice([1, 1, 2])
        c = self.name("c")
        n = r.choice([1, 2, 2, 3]) if t.main or r.random() < .6 else "n"
        if k == 1: self.add(t, "component %s = %s(%s);" % (c, s.name, n), lambda e: ["component %s = %s();" % (c, self.inst(s, sym(n, e)))])
        else: self.add(t, "component %s[%d]; for (var q = 0; q < %d; q++) { %s[q] = %s(%s); }" % (c, k, k, c, s.name, n), lambda e: ["component %s[%d]; for (var q = 0; q < %d; q++) { %s[q] = %s(); }" % (c, k, k, c, self.inst(s, sym(n, e)))])
        env = lambda e: sym(n, e)
        sub = lambda d: n if d == "n" else d
        for i in range(k):
            pre = "%s%s." % (c, "[%d]" % i if k > 1 else "")
            ins = [w for w in s.wires if w.kind == "input"]
            if r.random() < .4: r.shuffle(ins)
            for w in ins: self.add(t, *self.assign(t, Ref(w.name, w, [], [sub(d) for d in w.dims], w.bus, sub(w.par) if w.bus else None, pre, env), []))
            for w in s.wires:
                if w.kind == "output": t.have += self.refs(w, pre, env, [sub(d) for d in w.dims], sub(w.par) if w.bus else None)

    def anonymous(self, t, s):
        r = self.r
        outs, ins = [w for w in s.wires if w.kind == "output"], [w for w in s.wires if w.kind == "input"]
        n = r.choice([1, 2]) if t.main or r.random() < .6 else "n"
        sub = lambda d: n if d == "n" else d
        args = []
        for w in ins:
            sh = (tuple(sub(d) for d in w.dims), w.bus, sub(w.par) if w.bus else None)
            c = [x for x in t.have if x.shape() == sh]
            if not c: return
            x = r.choice(c)
            args.append((w.name, x.text(), lambda e, x=x: self.fref(x, e)))
        t.anon = True
        s.uses += 1
        ws = [Wire("", self.name("a"), [sub(d) for d in w.dims], w.bus, sub(w.par) if w.bus else None) for w in outs]
        for w in ws: self.add(t, self.decltext(w), lambda e, w=w: ["signal %s%s;" % (nm, "".join("[%d]" % d for d in ds)) for nm, ds in self.flat(w.name, w.dims, w.bus, w.par, e)])
        op = "<=="
        lhs = ws[0].name if len(ws) == 1 else "(%s)" % ", ".join(w.name for w in ws)

        def fn(e):
            l = [nm for w in ws for nm, _ in self.flat(w.name, w.dims, w.bus, w.par, e)]
            return ["%s %s %s()(%s);" % (l[0] if len(l) == 1 else "(%s)" % ", ".join(l), op, self.inst(s, sym(n, e)), ", ".join(z for _, _, f in args for z in f(e)))]
        if r.random() < .3:
            # named arguments, in another order
            ar = r.sample(args, len(args))
            tx = ", ".join("%s <== %s" % (a[0], a[1]) for a in ar)
        else: tx = ", ".join(a[1] for a in args)
        self.add(t, "%s %s %s(%s)(%s);" % (lhs, op, s.name, n, tx), fn)
        for w in ws: self.got(t, w)

    # ------------------------------------------------------------ output
    FUN = "function addup(v, k) { var s = 0; for (var i = 0; i < k; i++) { s += v[i]; } return s; }\n"

    def inst(self, s, n):
        if (s.name, n) not in self.done:
            self.done[(s.name, n)] = "%s_%d" % (s.name, n)
            self.render(s, n)
        return self.done[(s.name, n)]

    def render(self, s, n):
        lines = [l for tx, fn in s.steps for l in fn({"n": n})]
        self.out.append("template %s() {\n%s\n}" % ("%s_%d" % (s.name, n) if not s.main else "Main", "\n".join("  " + l for l in ([] if s.main else ["var n = %d;" % n]) + lines)))

    def texts(self):
        pub = [w for w in self.main.wires if w.kind == "input" and self.r.random() < .4]
        head = "pragma circom 2.1.6;\n" + self.FUN
        o = []
        for b, fs in self.buses.items(): o.append("bus %s(n) { %s }" % (b, " ".join("%s(%s) %s%s;" % (b2, p, f, "".join("[%s]" % x for x in d)) if b2 else "signal %s%s;" % (f, "".join("[%s]" % x for x in d)) for f, d, b2, p in fs)))
        for t in self.ts + [self.main]: o.append("template %s(%s) {\n%s\n}" % (t.name, "" if t.main else "n", "\n".join("  " + s[0] for s in t.steps)))
        pl = lambda l: " {public [%s]}" % ", ".join(l) if l else ""
        a = head + "\n".join(o) + "\ncomponent main%s = Main();\n" % pl([w.name for w in pub])
        self.done, self.out = {}, []
        self.render(self.main, 0)
        b = head + "\n".join(self.out) + "\ncomponent main%s = Main();\n" % pl([n for w in pub for n, _ in self.flat(w.name, w.dims, w.bus, w.par, {"n": 0})])
        return a, b

    def inputs(self, r, p):
        """(for the buses, for the separate signals)"""
        x, y = {}, {}
        lv = lambda: str(r.choice([0, 1, 2, 3, p - 1, r.randrange(p)]))
        def sig(ds): return [sig(ds[1:]) for _ in range(ds[0])] if ds else lv()
        def val(nm, dims, bus, par):
            if bus and not dims: return {f: val("%s__%s" % (nm, f), [par if z == "n" else z for z in d], b, par if q == "n" else q) for f, d, b, q in self.buses[bus]}
            if bus: return [val("%s__%d" % (nm, i), dims[1:], bus, par) for i in range(dims[0])]
            v = sig(list(dims)); y[nm] = v
            return v
        for w in self.main.wires:
            if w.kind == "input": x[w.name] = val(w.name, list(w.dims), w.bus, w.par)
        return x, y
