"""Programs that compute on arrays of several shapes with functions at run time; the same statements
are printed as circom and as Python, and the Python text gives main's outputs."""
import copy


class Two:
    """the two texts"""
    def __init__(self): self.c, self.p, self.ind = [], [], 1

    def line(self, c, p): self.c.append("  " * self.ind + c); self.p.append("  " * self.ind + p)
    def open(self, c, p): self.line(c, p); self.ind += 1

    def close(self, c="}"):
        self.ind -= 1
        self.c.append("  " * self.ind + c)


class Fun:
    def __init__(self, rng, p):
        self.r, self.P = rng, p
        self.ctext, self.ptext, self.n = [], [], 0
        self.build()

    def nm(self, k):
        self.n += 1
        return "%s%d" % (k, self.n)

    def num(self): return str(self.r.choice([0, 1, 2, 3, 5, 7, 11, 100]))

    # expressions: (circom, python) over scalar names
    def ex(self, vs, d=2):
        r = self.r
        if d == 0 or r.random() < .25:
            t = r.choice(vs) if vs and r.random() < .75 else self.num()
            return t, t
        a, b = self.ex(vs, d - 1), self.ex(vs, d - 1)
        k = r.choice("+++--***&?")
        if k == "&": return "(%s & 15)" % a[0], "(%s & 15)" % a[1]
        if k == "?":
            c = self.cond(vs, d - 1); return "(%s ? %s : %s)" % (c[0], a[0], b[0]), "(%s if %s else %s)" % (a[1], c[1], b[1])
        return "(%s %s %s)" % (a[0], k, b[0]), "((%s %s %s) %% P)" % (a[1], k, b[1])

    def cond(self, vs, d=1):
        a, b = self.ex(vs, d), self.ex(vs, d)
        k = self.r.choice(["==", "!=", "=&", "<"])
        if k == "=&": return "(%s & 1) == 1" % a[0], "((%s & 1) == 1)" % a[1]
        if k == "<": return "(%s & 15) < (%s & 15)" % (a[0], b[0]), "((%s & 15) < (%s & 15))" % (a[1], b[1])
        return "%s %s %s" % (a[0], k, b[0]), "(%s %s %s)" % (a[1], k, b[1])

    def assign(self, o, t, e): o.line("%s = %s;" % (t, e[0]), "%s = %s" % (t, e[1]))

    def branch(self, o, vs, body, other=None):
        """a conditional; sometimes its first branch is empty"""
        c = self.cond(vs)
        k = self.r.random()
        if k < .25:
            o.open("if (%s) { } else {" % c[0], "if not %s:" % c[1]); body(); o.close()
        elif k < .5 and other:
            o.open("if (%s) {" % c[0], "if %s:" % c[1]); body(); o.ind -= 1
            o.open("} else {", "else:"); other(); o.close()
        elif k < .65:
            o.open("if (%s) {" % c[0], "if %s:" % c[1]); body(); o.close("} else { }")
        else:
            o.open("if (%s) {" % c[0], "if %s:" % c[1]); body(); o.close()

    def loop(self, o, i, n, body):
        """every kind of counted loop"""
        k = self.r.random()
        if k < .7:
            o.open("for (var %s = 0; %s < %s; %s++) {" % (i, i, n, i), "for %s in range(%s):" % (i, n)); body(); o.close()
        else:
            o.line("var %s = 0;" % i, "%s = 0" % i)
            o.open("while (%s < %s) {" % (i, n), "while %s < %s:" % (i, n)); body(); o.line("%s += 1;" % i, "%s += 1" % i); o.close()

    def functions(self):
        """reductions (red), maps that return their changed parameter (map); by number of dimensions"""
        r = self.r
        self.red, self.mp = {1: [], 2: [], 3: []}, {1: [], 2: [], 3: []}
        for d in (1, 1, 1, 2, 2, 2, 2, 3, 3, 1, 2):
            o = Two()
            name, kind = self.nm("f"), r.choice(["red", "map"])
            ns = ["n%d" % k for k in range(d)]
            o.ind = 0
            o.open("function %s(v, %s) {" % (name, ", ".join(ns)), "def %s(v, %s):" % (name, ", ".join(ns)))
            o.p.append("  v = copy.deepcopy(v)")
            o.line("var s = %s;" % self.num(), "s = 0"); o.p[-1] = "  s = " + o.c[-1].split("= ")[1].rstrip(";")
            ix = [self.nm("i") for _ in range(d)]
            if r.random() < .25:
                c = self.cond([ns[0], "s"])
                z = "v" if kind == "map" else "s"
                o.open("if (%s) {" % c[0], "if %s:" % c[1]); o.line("return %s;" % z, "return %s" % z); o.close()

            def inner(k, at):
                vs = ["s"] + ix[:k]
                if 0 < k < d and self.red[d - k] and r.random() < .3:
                    g = r.choice(self.red[d - k])
                    a = "%s(v%s, %s)" % (g, at, ", ".join(ns[k:]))
                    o.line("s = s * 3 + %s;" % a, "s = (s * 3 + %s) %% P" % a)
                if 0 < k < d and kind == "map" and self.mp[d - k] and r.random() < .3:
                    g = r.choice(self.mp[d - k])
                    o.line("v%s = %s(v%s, %s);" % (at, g, at, ", ".join(ns[k:])), "v%s = %s(v%s, %s)" % (at, g, at, ", ".join(ns[k:])))
                    return
                if k == d:
                    vs = vs + ["v" + at]
                    t = "v" + at if kind == "map" else "s"
                    body = lambda: self.assign(o, t, self.ex(vs, 2))
                    if r.random() < .4: self.branch(o, vs, body, lambda: self.assign(o, "s", self.ex(vs, 1)))
                    else: body()
                    if r.random() < .6:
                        o.line("s += (%d * %s + 1) * v%s;" % (r.randint(1, 9), ix[-1], at), ""); o.p[-1] = "  " * o.ind + "s = (s + %s) %% P" % o.c[-1].split("+= ")[1].rstrip(";")
                    return
                self.loop(o, ix[k], ns[k], lambda: inner(k + 1, at + "[%s]" % ix[k]))
            inner(0, "")
            z = "v" if kind == "map" else "s"
            o.line("return %s;" % z, "return %s" % z); o.close()
            self.ctext += o.c; self.ptext += o.p
            (self.mp if kind == "map" else self.red)[d].append(name)
        # a recursive one
        k = r.randint(1, 4)
        self.ctext.append("function rec(n, x) { if (n == 0) { return x; } return rec(n - 1, x * x + %d * n); }" % k)
        self.ptext.append("def rec(n, x):\n  if n == 0: return x\n  return rec(n - 1, (x * x + %d * n) %% P)" % k)

    def build(self):
        r = self.r
        self.functions()
        self.L = L = r.randint(1, 4)
        o = Two()
        o.c.append("template M() {\n  signal input x[%d];" % L)
        o.p.append("def M(x):")
        arrs = []
        base = [r.randint(1, 4) for _ in range(3)]
        for _ in range(r.randint(3, 6)):
            d = r.choice([1, 1, 2, 2, 2, 3])
            # shapes of the same volume and of permuted sides are frequent
            sh = r.sample(base, d) if r.random() < .6 else [r.randint(1, 4) for _ in range(d)]
            if arrs and len(arrs[-1][1]) > 1 and r.random() < .5: sh = r.sample(arrs[-1][1], len(arrs[-1][1]))
            a = self.nm("a"); arrs.append((a, sh))
            o.line("var %s%s;" % (a, "".join("[%d]" % k for k in sh)), "%s = zeros(%s)" % (a, sh))
            ix = [self.nm("i") for _ in sh]

            def fill(k, at):
                if k == len(sh):
                    e = "(%s + x[(%s) %% %d]) * %d" % (" + ".join("%d * %s" % (r.randint(1, 7), i) for i in ix), " + ".join(ix), L, r.randint(1, 5))
                    o.line("%s%s = %s;" % (a, at, e), "%s%s = (%s) %% P" % (a, at, e)); return
                self.loop(o, ix[k], sh[k], lambda: fill(k + 1, at + "[%s]" % ix[k]))
            fill(0, "")
        sc = []
        for _ in range(2):
            s = self.nm("s"); sc.append(s)
            e = self.ex(["x[%d]" % k for k in range(L)], 2)
            o.line("var %s = %s;" % (s, e[0]), "%s = %s" % (s, e[1]))

        def part():
            """a random array or part of one: (text, shape)"""
            a, sh = r.choice(arrs)
            k = r.choice([0, 0, 1]) if len(sh) > 1 else 0
            return a + "".join("[%d]" % r.randrange(q) for q in sh[:k]), sh[k:]

        def dest(t, sh):
            """a variable to assign a value of this shape to; sometimes of other sides, then only the positions both have change"""
            to = [q for q in arrs if (q[1] == sh if r.random() < .6 else len(q[1]) == len(sh))]
            return r.choice(to) if to and r.random() < .8 else (t, sh)
        only = {d: r.choice(self.red[d] + self.mp[d]) for d in (1, 2, 3) if self.red[d] + self.mp[d]} if r.random() < .5 else {}

        def step(depth):
            k = r.random()
            t, sh = part()
            d = len(sh)
            if only.get(d) in self.red[d] and k < .6: k = .1
            elif only.get(d) in self.mp[d] and k < .6: k = .4
            args = "%s, %s" % (t, ", ".join(map(str, sh)))
            if k < .3 and self.red[d]:
                s, g = r.choice(sc), only[d] if only.get(d) in self.red[d] else r.choice(self.red[d])
                o.line("%s += %s(%s);" % (s, g, args), "%s = (%s + %s(%s)) %% P" % (s, s, g, args))
            elif k < .55 and self.mp[d]:
                g = only[d] if only.get(d) in self.mp[d] else r.choice(self.mp[d])
                u, to = dest(t, sh)
                if u is None: u = t
                if to == sh: o.line("%s = %s(%s);" % (u, g, args), "%s = %s(%s)" % (u, g, args))
                else: o.line("%s = %s(%s);" % (u, g, args), "common(%s, %s(%s))" % (u, g, args))
            elif k < .65:
                u, to = dest(t, sh)
                if u is None: u = t
                if to == sh: o.line("%s = %s;" % (u, t), "%s = copy.deepcopy(%s)" % (u, t))
                else: o.line("%s = %s;" % (u, t), "common(%s, copy.deepcopy(%s))" % (u, t))
            elif k < .75:
                s = r.choice(sc)
                n = r.randint(0, 4)
                o.line("%s = rec(%d, %s);" % (s, n, s), "%s = rec(%d, %s)" % (s, n, s))
            elif k < .9 and depth:
                self.branch(o, sc + ["x[0]"], lambda: [step(depth - 1) for _ in range(r.randint(1, 2))], lambda: step(depth - 1))
            elif depth:
                w = self.nm("w")
                s = r.choice(sc)
                o.line("var %s = %s & 3;" % (w, s), "%s = %s & 3" % (w, s))
                o.open("while (%s > 0) {" % w, "while %s > 0:" % w); step(0); o.line("%s -= 1;" % w, "%s -= 1" % w); o.close()
            else: self.assign(o, r.choice(sc), self.ex(sc, 2))
        for _ in range(r.randint(4, 10)): step(2)
        outs = []
        for a, sh in arrs:
            y = self.nm("y"); outs.append((y, sh))
            dm = "".join("[%d]" % k for k in sh)
            o.c.append("  signal output %s%s;" % (y, dm))
            o.line("%s <-- %s;" % (y, a), "")
            o.p[-1] = ""
        y = self.nm("y")
        o.c.append("  signal output %s[2];\n  %s[0] <-- %s; %s[1] <-- %s;\n}" % (y, y, sc[0], y, sc[1]))
        o.p.append("  return [%s]" % ", ".join([a for a, _ in arrs] + sc))
        self.text = "pragma circom 2.0.0;\n" + "\n".join(self.ctext) + "\n" + "\n".join(o.c) + "\ncomponent main = M();\n"
        g = {"copy": copy, "P": self.P, "zeros": zeros, "common": common}
        self.py = "\n".join(self.ptext) + "\n" + "\n".join(o.p)
        exec(self.py, g)
        self.f = g["M"]

    def outputs(self, x): return flat(self.f(x))

    def inputs(self):
        r = self.r
        return [r.choice([r.randrange(self.P), r.randrange(10), r.randrange(3), self.P - 1 - r.randrange(3)]) for _ in range(self.L)]


def zeros(sh): return [zeros(sh[1:]) for _ in range(sh[0])] if sh else 0


def common(u, v):
    for i in range(min(len(u), len(v))):
        if isinstance(v[i], list): common(u[i], v[i])
        else: u[i] = v[i]


def flat(v):
    if isinstance(v, list): return [y for x in v for y in flat(x)]
    return [v]
