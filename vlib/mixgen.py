"""Programs that move whole arrays, parts of arrays, buses and fields into and out of arrays of
components (equal or different instances of a template, sparse, several dimensions), with the
values of main's outputs computed here."""
import itertools


class Mix:
    def __init__(self, rng, p, parallel=False, buses=True):
        self.r, self.p, self.par, self.nv, self.bn = rng, p, parallel, 0, 0
        self.bdecl, self.usebus = [], buses
        while True:
            self.nv, self.bn, self.bdecl = 0, 0, []
            self.build()
            if self.size <= 160: break  # wide linear systems take --O2 minutes

    def v(self):
        self.nv += 1
        return "i%d" % self.nv

    # types: None for a signal, (use text, [(field, dims, type)]) for a bus
    def bus(self, depth):
        r = self.r
        fs = []
        for k in range(r.randint(1, 3)):
            t = self.bus(depth - 1) if depth > 0 and r.random() < .5 else None
            fs.append(("f%d" % k if r.random() < .7 else "g%d" % (9 - k), self.dims(2, 2 if t else 3), t))
        name = "B%d" % self.bn
        self.bn += 1
        order = list(fs)
        d = "bus %s() {\n" % name + "".join("  %s %s%s;\n" % (t[0] if t else "signal", f, ds(dm)) for f, dm, t in order) + "}\n"
        self.bdecl.append(d)
        return ("%s()" % name, order)

    def dims(self, most, size):
        n = self.r.choice([0, 0, 1, 1, 2, 3][:most + 3])
        return [self.r.randint(1, size) for _ in range(n)]

    # nested loops over every leaf below text, in the order leaves() takes them
    def each(self, text, dims, ty, body, ind):
        if dims:
            i = self.v()
            return "%sfor (var %s = 0; %s < %s; %s++) {\n%s%s}\n" % (ind, i, i, dims[0], i, self.each("%s[%s]" % (text, i), dims[1:], ty, body, ind + " "), ind)
        if ty is None: return ind + body(text) + "\n"
        return "".join(self.each("%s.%s" % (text, f), dm, t, body, ind) for f, dm, t in ty[1])

    # pairs moved at a point chosen anywhere between the whole and the single signals
    def move(self, dst, src, dims, ty, ind, op, must=0, lim=None, call=False):
        r = self.r
        if must <= 0 and r.random() < (.35 if dims or ty else 1):
            if ty is None and len(dims) == 1 and isinstance(dims[0], int) and call and r.random() < .5:
                return "%s%s <-- dup%d(%s);\n" % (ind, dst, dims[0], src)
            return "%s%s %s %s;\n" % (ind, dst, op, src) if r.random() < .8 else "%s%s %s %s;\n" % (ind, src, "==>" if op == "<==" else "-->", dst)
        if dims:
            if isinstance(dims[0], int) and dims[0] <= 3 and r.random() < .3:
                return "".join(self.move("%s[%d]" % (dst, k), "%s[%d]" % (src, k), dims[1:], ty, ind, op, must - 1, None, call) for k in r.sample(range(dims[0]), dims[0]))
            i = self.v()
            b = self.move("%s[%s]" % (dst, i), "%s[%s]" % (src, i), dims[1:], ty, ind + " ", op, must - 1, None, call)
            return "%sfor (var %s = 0; %s < %s; %s++) {\n%s%s}\n" % (ind, i, i, dims[0], i, b, ind)
        return "".join(self.move("%s.%s" % (dst, f), "%s.%s" % (src, f), dm, t, ind, op, 0, None, call) for f, dm, t in r.sample(ty[1], len(ty[1])))

    def build(self):
        r = self.r
        K = r.choice([[2], [3], [2, 2], [4], [1, 3]])
        cells = list(itertools.product(*map(range, K)))
        mixed = r.random() < .8
        ns = {c: (r.randint(1, 3) if mixed else 2) for c in cells}
        used = {c: r.random() < .85 for c in cells}
        if not any(used.values()): used[cells[0]] = True
        top = max(ns.values())
        sigs = []
        for k in range(r.randint(1, 3)):
            ty = self.bus(r.randint(0, 2)) if self.usebus and r.random() < .5 else None
            dm = self.dims(3, 3)
            vary = bool(dm) and mixed and r.random() < .4
            sigs.append((k, ([top] + dm[1:]) if vary else dm, vary, ty))
        self.size = len(cells) * sum(1 for s in sigs for _ in leaves(s[1], s[3]))
        if self.size > 160: return
        shape = lambda j, n: (["n"] + j[1][1:]) if (n == "n" and j[2]) else ([n] + j[1][1:] if j[2] and n is not None else j[1])
        decl = lambda what, ty, name, dims: "  %s %s%s;\n" % (("signal %s" % what).strip() if ty is None else ("%s %s" % (ty[0], what)).strip(), name, ds(dims))
        # the template
        quad = r.random() < .4
        T = "template %sT(n) {\n" % ("parallel " if self.par and r.random() < .5 else "")
        ds_ = [decl("input", s[3], "a%d" % s[0], shape(s, "n")) for s in sigs] + [decl("output", s[3], "b%d" % s[0], shape(s, "n")) for s in sigs]
        r.shuffle(ds_)
        # signals that only some instances declare: inputs q, outputs e
        self.opt = opt = None
        if mixed and r.random() < .4:
            vals = sorted(r.sample([1, 2, 3], r.choice([1, 2])))
            mk = lambda: [(j, self.dims(2, 2), self.bus(1) if self.usebus and r.random() < .3 else None) for j in range(r.randint(0, 2))]
            self.opt = opt = {"vals": vals, "q": mk(), "e": mk(), "first": r.random() < .4}
            if not opt["q"] and not opt["e"]: opt["e"] = [(0, [], None)]
        cond = lambda n: " || ".join("%s == %d" % (n, v) for v in opt["vals"])
        O = ""
        if opt:
            od = [decl("input", t, "q%d" % j, d) for j, d, t in opt["q"]] + [decl("output", t, "e%d" % j, d) for j, d, t in opt["e"]]
            r.shuffle(od)
            O = "  if (%s) {\n" % cond("n") + "".join(od) + "  var h = n; var j = 0;\n"
            for j, d, t in opt["q"]: O += self.each("q%d" % j, d, t, lambda b: "h += (j + 1) * %s; j++;" % b, "  ")
            if not opt["first"]: O += self.each("a%d" % sigs[0][0], shape(sigs[0], "n"), sigs[0][3], lambda b: "h += %s;" % b, "  ")
            O += "".join(self.each("e%d" % j, d, t, lambda b: "%s <== h + j; j++;" % b, "  ") for j, d, t in opt["e"]) + "  }\n"
        T += (O if opt and opt["first"] else "") + "".join(ds_) + (O if opt and not opt["first"] else "") + "  var k = 0;\n"
        for s in sigs:
            T += self.each2("b%d" % s[0], "a%d" % s[0], shape(s, "n"), s[3], lambda b, a: "%s <== %s * %s + k; k++;" % (b, a, a if quad else "n"), "  ")
        T += "}\n"
        # main
        L = r.randint(1, 6)
        qs = [self.v() for _ in K]
        at = "".join("[%s]" % q for q in qs)
        M = "template M() {\n  signal input x[%d];\n" % L
        for s in sigs:
            M += decl("", s[3], "t%d" % s[0], K + s[1]) + decl("output", s[3], "y%d" % s[0], K + s[1])
        M += "  var N%s = %s;\n  var U%s = %s;\n" % (ds(K), lit(ns, K), ds(K), lit({c: int(u) for c, u in used.items()}, K))
        M += "  component c%s;\n  var k = 0;\n" % ds(K)
        for s in sigs:
            M += self.each("t%d" % s[0], K + s[1], s[3], lambda a: "%s <== (k + 1) * x[k %% %d] + k; k++;" % (a, L), "  ")
        M += "  signal output s;\n  var acc = 0; k = 0;\n"
        par = "parallel " if self.par and r.random() < .6 else ""

        def loop(body):
            out, ind = "", "  "
            for q, kk in zip(qs, K): out += "%sfor (var %s = 0; %s < %d; %s++) {\n" % (ind, q, q, kk, q); ind += " "
            out += body(ind)
            for _ in K: ind = ind[:-1]; out += ind + "}\n"
            return out
        phases = []

        def create(ind): return "%sif (U%s == 1) { c%s = %sT(N%s); }\n" % (ind, at, at, par, at)

        def feed(ind):
            out = ""
            for s in r.sample(sigs, len(sigs)):
                d = (["N" + at] + s[1][1:]) if s[2] else s[1]
                out += self.move("c%s.a%d" % (at, s[0]), "t%d%s" % (s[0], at), d, s[3], ind + " ", "<==", 1 if s[2] else 0, None, True)
            if opt and opt["q"]:
                o = "%s if (%s) {\n%s var j = 0;\n" % (ind, cond("N" + at), ind)
                for j, d, t in opt["q"]: o += self.each("c%s.q%d" % (at, j), d, t, lambda b: "%s <== x[j %% %d] + j; j++;" % (b, L), ind + "  ")
                o += ind + " }\n"
                out = o + out if r.random() < .5 else out + o
            return "%sif (U%s == 1) {\n%s%s}\n" % (ind, at, out, ind)

        def read(ind):
            out, els = "", ""
            for s in sigs:
                d = (["N" + at] + s[1][1:]) if s[2] else s[1]
                out += self.move("y%d%s" % (s[0], at), "c%s.b%d" % (at, s[0]), d, s[3], ind + " ", "<==" if r.random() < .8 else "<--", 1 if s[2] else 0, None, True)
                if s[2]:
                    i = self.v()
                    out += "%s for (var %s = N%s; %s < %d; %s++) {\n%s%s }\n" % (ind, i, at, i, s[1][0], i, self.each("y%d%s[%s]" % (s[0], at, i), s[1][1:], s[3], lambda a: a + " <== 0;", ind + "  "), ind)
                els += self.each("y%d%s" % (s[0], at), s[1], s[3], lambda a: a + " <== 0;", ind + " ")
                out += self.each("c%s.b%d" % (at, s[0]), d, s[3], lambda a: "acc += (k + 1) * %s; k++;" % a, ind + " ")
            if opt and opt["e"]:
                out += "%s if (%s) {\n" % (ind, cond("N" + at))
                for j, d, t in opt["e"]: out += self.each("c%s.e%d" % (at, j), d, t, lambda b: "acc += (k + 1) * %s; k++;" % b, ind + "  ")
                out += ind + " }\n"
            return "%sif (U%s == 1) {\n%s%s} else {\n%s%s}\n" % (ind, at, out, ind, els, ind)
        if r.random() < .5: M += loop(create) + loop(feed) + loop(read)
        elif r.random() < .5: M += loop(lambda i: create(i) + feed(i)) + loop(read)
        else: M += loop(lambda i: create(i) + feed(i) + read(i))
        # the same instance once more, outside the array
        self.solo = None
        if r.random() < .5:
            c0 = self.solo = r.choice(cells)
            n, z, at0 = ns[c0], r.choice(["b", "z", "d"]), "".join("[%d]" % i for i in c0)
            Z = "  component %s = T(%d);\n" % (z, n)
            for s in sigs: Z += self.move("%s.a%d" % (z, s[0]), "t%d%s" % (s[0], at0), [n] + s[1][1:] if s[2] else s[1], s[3], "  ", "<==", 1 if s[2] else 0, None, True)
            if opt and n in opt["vals"]:
                Z += "  var jz = 0;\n"
                for j, d, t in opt["q"]: Z += self.each("%s.q%d" % (z, j), d, t, lambda b: "%s <== x[jz %% %d] + jz; jz++;" % (b, L), "  ")
            for s in sigs: Z += self.each("%s.b%d" % (z, s[0]), [n] + s[1][1:] if s[2] else s[1], s[3], lambda a: "acc += (k + 1) * %s; k++;" % a, "  ")
            if opt and n in opt["vals"]:
                for j, d, t in opt["e"]: Z += self.each("%s.e%d" % (z, j), d, t, lambda b: "acc += (k + 1) * %s; k++;" % b, "  ")
            M += Z
        M += "  s <== acc;\n}\n"
        self.text = "pragma circom 2.0.0;\n" + "".join(self.bdecl)
        for n in (1, 2, 3):
            self.text += "function dup%d(v) { var w[%d]; for (var i = 0; i < %d; i++) { w[i] = v[i]; } return w; }\n" % (n, n, n)
        self.text += T + M + "component main%s = M();\n" % (" {public [x]}" if r.random() < .3 else "")
        self.sigs, self.K, self.ns, self.used, self.quad, self.L = sigs, K, ns, used, quad, L

    def each2(self, b, a, dims, ty, body, ind):
        if dims:
            i = self.v()
            return "%sfor (var %s = 0; %s < %s; %s++) {\n%s%s}\n" % (ind, i, i, dims[0], i, self.each2("%s[%s]" % (b, i), "%s[%s]" % (a, i), dims[1:], ty, body, ind + " "), ind)
        if ty is None: return ind + body(b, a) + "\n"
        return "".join(self.each2("%s.%s" % (b, f), "%s.%s" % (a, f), dm, t, body, ind) for f, dm, t in ty[1])

    def outputs(self, x):
        """main's outputs in declaration order, row by row, from the input array"""
        p, t, k = self.p, {}, 0
        for s in self.sigs:
            for path in leaves(self.K + s[1], s[3]):
                t[(s[0],) + path] = ((k + 1) * x[k % self.L] + k) % p; k += 1
        y, acc, ka = {}, 0, 0
        for c in list(itertools.product(*map(range, self.K))) + ([self.solo] if self.solo else []):
            last = c is self.solo
            kk, n = 0, self.ns[c]
            o, es = {}, []
            for s in self.sigs:
                for path in leaves([n] + s[1][1:] if s[2] else s[1], s[3]):
                    a = t[(s[0],) + c + path]
                    o[(s[0],) + path] = (a * (a if self.quad else n) + kk) % p; kk += 1
            if self.opt and n in self.opt["vals"]:
                h, j = n, 0
                for _, d, ty in self.opt["q"]:
                    for _ in leaves(d, ty): h += (j + 1) * (x[j % self.L] + j); j += 1
                if not self.opt["first"]:
                    s = self.sigs[0]
                    h += sum(t[(s[0],) + c + path] for path in leaves([n] + s[1][1:] if s[2] else s[1], s[3]))
                for _, d, ty in self.opt["e"]:
                    for _ in leaves(d, ty): es.append(h + j); j += 1
            if not last and not self.used[c]: continue
            for v in list(o.items()) + [(None, e) for e in es]:
                if v[0] and not last: y[v[0][:1] + c + v[0][1:]] = v[1]
                acc += (ka + 1) * v[1]; ka += 1
        out = [y.get((s[0],) + path, 0) for s in self.sigs for path in leaves(self.K + s[1], s[3])]
        return out + [acc % p]

    def inputs(self):
        r = self.r
        return [r.choice([r.randrange(self.p), r.randrange(10), self.p - 1 - r.randrange(3)]) for _ in range(self.L)]


def ds(dims): return "".join("[%s]" % d for d in dims)


def lit(m, K, at=()):
    if len(at) == len(K): return str(m[at])
    return "[" + ", ".join(lit(m, K, at + (i,)) for i in range(K[len(at)])) + "]"


def leaves(dims, ty):
    """paths in the order the loops take: array positions, then fields"""
    for idx in itertools.product(*map(range, dims)):
        if ty is None: yield idx
        else:
            for f, dm, t in ty[1]:
                for path in leaves(dm, t): yield idx + (f,) + path
