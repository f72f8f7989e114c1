"""GenX: Gen plus arrays through functions, recursion, early returns, scoping, array
parameters, 2-D component arrays, 3-D signals, partial (row) assignments and every
compound assignment operator."""
from .gen import Gen, Ref, CompArrRef, Ctx, N, Vr, I, Fd, B, Iface
from .lang import Template


class GenX(Gen):
    def __init__(self, rng, F, **opts):
        self.xf = opts.pop("xf", .3)
        Gen.__init__(self, rng, F, **opts)
        self.vec, self.red, self.mat, self.rec = [], [], [], []
        self.arrt = []

    # ------------------------------------------------------------ functions
    def gen_xfunctions(self):
        r = self.r
        for n in (2, 3):
            if r.random() < .6:
                f = self.fresh("vec")
                c = Ctx(); c.infn = True
                c.anyv = ["p1"]; c.anyarr = [("p0", N(n))]
                body = [("let", "r", (N(n),), None)]
                c2 = self.inner(c); c2.known.append("i"); c2.idx.append(("i", N(n)))
                body.append(("for", ("let", "i", (), N(0)), B("<", Vr("i"), N(n)), ("inc", Vr("i"), "++"),
                             [("set", "=", Vr("r", I(Vr("i"))), self.any(c2, 2))]))
                c.anyarr.append(("r", N(n)))
                if r.random() < .5:
                    body.append(("set", r.choice(["+=", "*=", "="]), Vr("p0", I(self.index(c, N(n)))), self.any(c, 1)))
                if r.random() < .4:
                    body.append(("if", self.any(c, 1), [("set", "=", Vr("r"), Vr("p0"))] if r.random() < .5 else [("ret", Vr("p0"))], None))
                body.append(("ret", Vr("r")))
                self.P.add_f(f, ["p0", "p1"], body)
                self.vec.append((f, n))
        if r.random() < .7:
            # one function called with arrays of several lengths
            f = self.fresh("red")
            body = [("let", "s", (), N(r.randrange(3))),
                    ("for", ("let", "i", (), N(0)), B("<", Vr("i"), Vr("p1")), ("inc", Vr("i"), "++"),
                     [("set", r.choice(["+=", "^=", "-="]), Vr("s"), B("*", Vr("p0", I(Vr("i"))), B("+", Vr("i"), N(r.randrange(1, 4))))),
                      ("set", "=", Vr("p0", I(Vr("i"))), N(0))]),
                    ("ret", Vr("s"))]
            self.P.add_f(f, ["p0", "p1"], body)
            self.red.append(f)
        if r.random() < .5:
            f = self.fresh("mat")
            n = r.choice([2, 3])
            body = [("let", "r", (N(n), N(n)), None),
                    ("for", ("let", "i", (), N(0)), B("<", Vr("i"), N(n)), ("inc", Vr("i"), "++"),
                     [("for", ("let", "j", (), N(0)), B("<", Vr("j"), N(n)), ("inc", Vr("j"), "++"),
                       [("set", "=", Vr("r", I(Vr("i")), I(Vr("j"))), B(r.choice("*+-"), Vr("p0", I(Vr("i"))), Vr("p0", I(Vr("j")))))])]),
                    ("ret", Vr("r"))]
            self.P.add_f(f, ["p0"], body)
            self.mat.append((f, n))
        if r.random() < .6:
            f = self.fresh("rec")
            self.P.add_f(f, ["p"], [("if", B("<=", Vr("p"), N(r.randrange(0, 3))), [("ret", N(r.randrange(1, 5)))], None),
                                    ("ret", B(r.choice("+*"), Vr("p"), ("call", f, (B("-", Vr("p"), N(r.choice([1, 2]))),))))])
            # arguments below the bound stop at once only when the step cannot jump over it
            self.rec.append(f)
        if r.random() < .6:
            f = self.fresh("early")
            c = Ctx(); c.infn = True; c.anyv = ["p"]
            n = r.randrange(2, 6)
            self.P.add_f(f, ["p"], [
                ("for", ("let", "i", (), N(0)), B("<", Vr("i"), N(n)), ("inc", Vr("i"), "++"),
                 [("if", B(r.choice(["==", ">", "<"]), B("&", Vr("p"), N(7)), Vr("i")),
                   [("ret", B("+", B("*", Vr("i"), N(10)), Vr("p")))], None)]),
                ("ret", self.any(c, 2))])
            self.funcs.append((f, 1, "any"))

    def gen_arr_template(self):
        """template with an array parameter"""
        r = self.r
        name = self.fresh("TA")
        body = [("sig", "input", (), "x", (), None, None), ("sig", "output", (), "y", (), None, None),
                ("let", "s", (), N(0)),
                ("for", ("let", "i", (), N(0)), B("<", Vr("i"), Vr("n")), ("inc", Vr("i"), "++"),
                 [("set", r.choice(["+=", "-="]), Vr("s"), B("*", Vr("arr", I(Vr("i"))), B("+", Vr("i"), N(1))))]),
                ("set", "<==", Vr("y"), B("+", B("*", Vr("x"), Vr("s")), Vr("arr", I(B("-", Vr("n"), N(1))))))]
        self.P.add_t(Template(name, ["n", "arr"], body))
        self.arrt.append(name)

    def known(self, c, d=2):
        r = self.r
        if self.rec and d > 0 and not c.infn and r.random() < .06:
            return ("call", r.choice(self.rec), (N(r.randrange(0, 7)),))
        if d > 0 and c.karr and self.red and not c.infn and r.random() < .08:
            n, dm = r.choice(c.karr)
            return ("call", r.choice(self.red), (Vr(n), dm))
        return Gen.known(self, c, d)

    def arr_of(self, c, n):
        """an expression of array type [n] usable at run time, or None"""
        r = self.r
        cand = [Vr(s.name, *s.pre) for s in c.sigs if type(s) is Ref and s.bus is None and s.dims == (N(n),)]
        cand += [Vr(a) for a, dm in c.anyarr + c.karr if dm == N(n)]
        for s in c.sigs:
            if type(s) is Ref and s.bus is None and len(s.dims) == 2 and s.dims[1] == N(n):
                cand.append(Vr(s.name, *(s.pre + (I(self.index(c, s.dims[0])),))))
        if r.random() < .25 or not cand:
            vf = [f for f, k in self.vec if k == n]
            if cand and vf and r.random() < .5:
                return ("call", r.choice(vf), (r.choice(cand), self.any(c, 1)))
            return ("arr", tuple(self.any(c, 1) for _ in range(n)))
        return r.choice(cand)

    def any(self, c, d=3):
        r = self.r
        if d > 1 and self.red and not c.infn and r.random() < .05:
            n = r.choice([2, 3])
            a = self.arr_of(c, n)
            if a[0] != "arr":
                return ("call", r.choice(self.red), (a, N(n)))
        return Gen.any(self, c, d)

    def call_arr(self, c, n):
        vf = [f for f, k in self.vec if k == n]
        if not vf: return None
        a = self.arr_of(c, n)
        return ("call", self.r.choice(vf), (a, self.any(c, 2)))

    def assign(self, c, name, pre, dims, bus=None, fresh_decl=None):
        r = self.r
        if self.o["nonquad"] and not bus and len(dims) == 1 and dims[0][0] == "num" and r.random() < .3:
            e = self.call_arr(c, dims[0][1])
            if e: return [("set", "<--", Vr(name, *pre), e)]
        if not bus and len(dims) == 2 and dims[0][0] == "num" and r.random() < .4:
            # row by row, each row in its own way
            out = []
            rows = list(range(dims[0][1])); r.shuffle(rows)
            for i in rows:
                out += self.assign(c, name, tuple(pre) + (I(N(i)),), dims[1:])
            return out
        return Gen.assign(self, c, name, pre, dims, bus)

    def stmt(self, c, sizes):
        r, o = self.r, self.o
        if r.random() > self.xf:
            return Gen.stmt(self, c, sizes)
        k = r.randrange(12)
        if k == 0 and o["nonquad"]:
            n = r.choice([2, 3])
            e = self.call_arr(c, n)
            if e:
                s = self.fresh("s"); c.sigs.append(Ref(s, (), (N(n),)))
                if r.random() < .5:
                    return [("sig", "", (), s, (N(n),), None, ("<--", e))]
                return [("sig", "", (), s, (N(n),), None, None), ("set", "<--", Vr(s), e)]
        if k == 1 and o["nonquad"]:
            n = r.choice([2, 3])
            e = self.call_arr(c, n) or self.arr_of(c, n)
            v = self.fresh("w"); c.anyarr.append((v, N(n)))
            st = [("let", v, (N(n),), e)]
            if r.random() < .4:
                st.append(("set", "=", Vr(v), self.arr_of(c, n)))
            return st
        if k == 2 and self.mat and o["nonquad"]:
            f, n = r.choice(self.mat)
            s = self.fresh("s")
            e = ("call", f, (self.arr_of(c, n),))
            c.sigs.append(Ref(s, (), (N(n), N(n))))
            return [("sig", "", (), s, (N(n), N(n)), None, None), ("set", "<--", Vr(s), e)]
        if k == 3:
            s = self.fresh("s")
            ds = tuple(N(r.randrange(1, 4)) for _ in range(3))
            st = [("sig", "", (), s, ds, None, None)] + self.assign(c, s, (), ds)
            c.sigs.append(Ref(s, (), ds))
            return st
        if k == 4 and self.arrt:
            n = r.choice([2, 3])
            cn = self.fresh("c")
            cand = [Vr(a) for a, dm in c.karr if dm == N(n)]
            a = r.choice(cand) if cand and r.random() < .6 else ("arr", tuple(self.known(c, 1) for _ in range(n)))
            st = [("comp", cn, (), ("inst", r.choice(self.arrt), (N(n), a), False)),
                  ("set", "<==", Vr(cn, Fd("x")), self.quad(c, 1))]
            c.sigs.append(Ref(cn, (Fd("y"),), ()))
            return st
        if k == 5 and self.lib:
            # 2-D array of one template
            t = r.choice(self.lib)
            if all(x[2] is None for x in t.ins) and t.ins:
                args = self.lib_args(c, t, sizes)
                m = dict(zip(t.pnames, args))
                from .gen import subst
                cn = self.fresh("c"); i, j = self.fresh("i"), self.fresh("j")
                D1, D2 = N(r.randrange(1, 3)), N(r.randrange(1, 4))
                c2 = self.inner(c); c2.known += [i, j]; c2.idx += [(i, D1), (j, D2)]
                acc = (I(Vr(i)), I(Vr(j)))
                body = [("set", "=", Vr(cn, *acc), ("inst", t.name, tuple(args), o["parallel"] and r.random() < .4))]
                for inn, ds, b, *_ in t.ins:
                    body += self.assign(c2, cn, acc + (Fd(inn),), tuple(subst(x, m) for x in ds))
                st = [("comp", cn, (D1, D2), None),
                      ("for", ("let", i, (), N(0)), B("<", Vr(i), D1), ("inc", Vr(i), "++"),
                       [("for", ("let", j, (), N(0)), B("<", Vr(j), D2), ("inc", Vr(j), "++"), body)])]
                for on, ds, b, *_ in t.outs:
                    if b is None:
                        c.sigs.append(Ref(cn, (I(self.index(c, D1)), I(self.index(c, D2)), Fd(on)), tuple(subst(x, m) for x in ds)))
                return st
        if k == 6 and c.anyv:
            # scoping: an inner block shadows a variable, changes another, and leaves
            v = r.choice(c.anyv)
            c2 = self.inner(c)
            for l in (c2.anyv, c2.known, c2.lin, c2.quad):
                while v in l: l.remove(v)
            inner = [("let", v, (), self.any(c2, 1)), ("set", "+=", Vr(v), N(r.randrange(9)))]
            w = [x for x in c.anyv if x != v]
            if w: inner.append(("set", r.choice(["=", "+=", "*="]), Vr(r.choice(w)), Vr(v)))
            if o["logs"] and r.random() < .5: inner.append(("log", ["in", Vr(v)]))
            st = [("block", inner)]
            if o["logs"] and r.random() < .5: st.append(("log", ["out", Vr(v)]))
            return st
        if k == 7 and c.anyv and o["nonquad"]:
            v = r.choice(c.anyv)
            op = r.choice(["+=", "-=", "*=", "&=", "|=", "^=", "<<=", ">>=", "**=", "/=", "\\=", "%="])
            if op in ("<<=", ">>="): e = N(r.randrange(70))
            elif op == "**=": e = N(r.randrange(6))
            elif op in ("/=", "\\=", "%="): e = B("+", B("&", self.any(c, 1), N(r.choice([3, 255]))), N(1))
            else: e = self.any(c, 2)
            return [("set", op, Vr(v), e)]
        if k == 8:
            # known control flow: countdown, while, nested if / else if
            v = self.fresh("k")
            i = self.fresh("i")
            st = [("let", v, (), self.known(c, 1))]
            kind = r.randrange(3)
            cc = self.inner(c); cc.known = cc.known + [i, v]
            upd = ("set", r.choice(["+=", "*=", "-=", "^=", "="]), Vr(v), self.known(cc, 1))
            if kind == 0:
                st.append(("for", ("let", i, (), N(r.randrange(1, 6))), B(">", Vr(i), N(0)), ("inc", Vr(i), "--"), [upd]))
            elif kind == 1:
                st.append(("let", i, (), N(0)))
                st.append(("while", B("<", Vr(i), N(r.randrange(1, 7))), [upd, ("set", "+=", Vr(i), N(r.randrange(1, 3)))]))
            else:
                st.append(("if", self.known(c, 1), [("set", "=", Vr(v), self.known(c, 1))],
                           [("if", self.known(c, 1), [("set", "+=", Vr(v), N(3))], [("block", [("set", "*=", Vr(v), N(5))])])]))
            c.known.append(v)
            return st
        if k == 9:
            # known 2-D table
            v = self.fresh("k")
            a, b = r.randrange(1, 3), r.randrange(2, 4)
            st = [("let", v, (N(a), N(b)), ("arr", tuple(("arr", tuple(self.known(c, 1) for _ in range(b))) for _ in range(a))) if r.random() < .5 else None)]
            i = self.fresh("i")
            cc = self.inner(c); cc.known.append(i)
            st.append(("for", ("let", i, (), N(0)), B("<", Vr(i), N(b)), ("inc", Vr(i), "++"),
                       [("set", r.choice(["=", "+="]), Vr(v, I(N(r.randrange(a))), I(Vr(i))), self.known(cc, 1))]))
            w = self.fresh("k")
            st.append(("let", w, (N(b),), Vr(v, I(N(r.randrange(a))))))
            c.karr.append((w, N(b)))
            return st
        if k == 10 and o["nonquad"]:
            # run time 2-D table with run time positions
            v = self.fresh("w")
            a, b = r.choice([2, 3]), r.choice([2, 3])
            st = [("let", v, (N(a), N(b)), None)]
            i, j = self.fresh("i"), self.fresh("j")
            c2 = self.inner(c); c2.known += [i, j]; c2.idx += [(i, N(a)), (j, N(b))]
            st.append(("for", ("let", i, (), N(0)), B("<", Vr(i), N(a)), ("inc", Vr(i), "++"),
                       [("for", ("let", j, (), N(0)), B("<", Vr(j), N(b)), ("inc", Vr(j), "++"),
                         [("set", "=", Vr(v, I(Vr(i)), I(Vr(j))), self.any(c2, 2))])]))
            st.append(("set", r.choice(["=", "+="]), Vr(v, I(B("%", self.any(c, 1), N(a))), I(B("%", self.any(c, 1), N(b)))), self.any(c, 1)))
            st.append(("set", "=", Vr(v, I(N(0))), self.arr_of(c, b)))
            w = self.fresh("w")
            st.append(("let", w, (N(b),), Vr(v, I(B("%", self.any(c, 1), N(a)) if r.random() < .5 else N(a - 1)))))
            c.anyarr.append((w, N(b)))
            return st
        if k == 11:
            # rows of a matrix of signals assigned from other rows
            rows = [s for s in c.sigs if type(s) is Ref and s.bus is None and len(s.dims) == 1 and s.dims[0][0] == "num"]
            if rows:
                s0 = r.choice(rows)
                s = self.fresh("s"); n = r.randrange(1, 4)
                same = [x for x in rows if x.dims == s0.dims]
                st = [("sig", "", (), s, (N(n),) + s0.dims, None, None)]
                for i in range(n):
                    x = r.choice(same)
                    st.append(("set", "<==", Vr(s, I(N(i))), Vr(x.name, *x.pre)))
                c.sigs.append(Ref(s, (), (N(n),) + s0.dims))
                return st
        return Gen.stmt(self, c, sizes)

    def program(self):
        self.gen_xfunctions()
        if self.r.random() < .6: self.gen_arr_template()
        return Gen.program(self)
