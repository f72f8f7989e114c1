"""Programs whose run-time checks can fail: the same language as gen2, plus assertions and
constraint equalities over small values that some inputs satisfy and others do not."""
from .gen2 import GenX
from .gen import N, Vr, B, I, Fd, Ref


class GenR(GenX):
    def __init__(self, rng, F, **opts):
        self.rf = opts.pop("rf", .35)
        GenX.__init__(self, rng, F, **opts)

    def pick(self, c):
        """a small valued expression over signals"""
        r = self.r
        cand = [s for s in c.sigs if s.name.startswith("in")] or c.sigs
        if not cand: return None
        return self.elem(c, r.choice(cand))

    def claim(self, c):
        r = self.r
        s, t = self.pick(c), self.pick(c)
        if s is None: return None
        k = r.randrange(8)
        if k == 0: return B("<", s, N(r.choice([2, 2, 1])))
        if k == 1: return B("!=", s, N(r.choice([0, 1, 2])))
        if k == 2: return B("!=", s, t)
        if k == 3: return B("||", B("==", s, N(r.choice([0, 1]))), B("!=", t, N(2)))
        if k == 4: return B("<=", B("+", s, t), N(r.choice([2, 3])))
        if k == 5: return B("&&", B(">=", s, N(0)), B("!=", B("*", s, t), N(4)))
        if k == 6: return ("un", "!", B("==", s, N(2)))
        return B("-", s, N(r.choice([3, 2, 5])))   # any non-zero value is true

    def refutable(self, c, sizes):
        r = self.r
        s, t = self.pick(c), self.pick(c)
        if s is None: return None
        k = r.randrange(13)
        if k < 3:
            return [("assert", self.claim(c))]
        if k == 3: return [("ceq", B("*", s, B("-", s, N(1))), N(0))]
        if k == 4: return [("ceq", s, t)]
        if k == 5:
            e = self.fresh("s")
            return [("sig", "", (), e, (), None, ("<--", B("!=", s, t))), ("ceq", B("*", B("-", s, t), B("-", N(1), Vr(e))), N(0)),
                    ("ceq", B("*", Vr(e), B("-", Vr(e), N(1))), N(0)), ("assert", r.choice([Vr(e), B("||", Vr(e), B("==", s, N(0)))]))]
        if k == 6:
            # the hint is right for some inputs only
            e = self.fresh("s")
            st = [("sig", "", (), e, (), None, ("<--", B("&", s, N(1)))), ("ceq", Vr(e), s)]
            c.sigs.append(Ref(e)); return st
        if k == 7:
            return [("if", B("==", s, N(1)), [("assert", self.claim(c))], [("assert", self.claim(c))] if r.random() < .5 else None)]
        if k == 8:
            v = self.fresh("v"); c.anyv.append(v)
            return [("let", v, (), N(0)), ("while", B("<", Vr(v), B("&", s, N(3))), [("assert", self.claim(c)), ("inc", Vr(v), "++")])]
        if k == 9 and self.chk:
            v = self.fresh("v"); c.anyv.append(v)
            return [("let", v, (), ("call", r.choice(self.chk), (s, t)))]
        if k == 10 and self.chk:
            e = self.fresh("s"); c.sigs.append(Ref(e))
            return [("sig", "", (), e, (), None, ("<--", ("call", r.choice(self.chk), (s, t))))]
        if k == 11 and self.guards:
            cn = self.fresh("c")
            name, outs = r.choice(self.guards)
            st = [("comp", cn, (), ("inst", name, (N(r.randrange(1, 3)),), self.o["parallel"] and r.random() < .4)),
                  ("set", "<==", Vr(cn, Fd("in0")), s), ("set", "<==", Vr(cn, Fd("in1")), t)]
            if outs: c.sigs.append(Ref(cn, (Fd("o"),)))
            return st
        arrs = [x for x in c.sigs if type(x) is Ref and x.bus is None and len(x.dims) == 1]
        if arrs:
            a = r.choice(arrs)
            i = self.fresh("i")
            x = Vr(a.name, *(a.pre + (I(Vr(i)),)))
            return [("for", ("let", i, (), N(0)), B("<", Vr(i), a.dims[0]), ("inc", Vr(i), "++"),
                     [r.choice([("ceq", B("*", B("*", x, B("-", x, N(1))) if False else x, B("-", x, N(1))), N(0)),
                                ("assert", B("<", x, N(3))), ("assert", B("!=", x, N(2)))])])]
        return [("ceq", B("*", s, t), B("*", t, N(r.choice([0, 1, 1]))))]

    def stmt(self, c, sizes):
        if self.r.random() < self.rf:
            st = self.refutable(c, sizes)
            if st: return st
        return GenX.stmt(self, c, sizes)

    def program(self):
        r = self.r
        self.chk, self.guards = [], []
        for _ in range(r.randrange(0, 3)):
            f = self.fresh("chk")
            self.P.add_f(f, ["p", "q"], r.choice([
                [("assert", B("!=", B("+", Vr("p"), Vr("q")), N(r.choice([2, 3, 4])))), ("ret", B("+", Vr("p"), N(1)))],
                [("if", B("==", Vr("p"), N(r.choice([0, 1, 2]))), [("assert", B("<", Vr("q"), N(2)))], None), ("ret", B("*", Vr("p"), Vr("q")))],
                [("for", ("let", "i", (), N(0)), B("<", Vr("i"), B("&", Vr("p"), N(3))), ("inc", Vr("i"), "++"), [("assert", B("!=", Vr("q"), B("+", Vr("i"), N(1))))]),
                 ("ret", B("^", Vr("p"), Vr("q")))]]))
            self.chk.append(f)
        for _ in range(r.randrange(0, 3)):
            from .lang import Template
            n = self.fresh("G")
            outs = r.random() < .6
            body = [("sig", "input", (), "in0", (), None, None), ("sig", "input", (), "in1", (), None, None)]
            if outs: body += [("sig", "output", (), "o", (), None, None), ("set", "<==", Vr("o"), B("+", B("*", Vr("in0"), Vr("in1")), Vr("n")))]
            body += r.choice([
                [("ceq", B("*", Vr("in0"), B("-", Vr("in0"), N(1))), N(0))],
                [("ceq", B("*", B("-", Vr("in0"), Vr("n")), B("-", Vr("in1"), Vr("n"))), N(0))],
                [("assert", B("!=", Vr("in0"), B("+", Vr("in1"), Vr("n"))))],
                [("ceq", Vr("in0"), Vr("in1"))]])
            self.P.add_t(Template(n, ["n"], body, parallel=self.o["parallel"] and r.random() < .4))
            self.guards.append((n, outs))
        return GenX.program(self)

    def inputs(self, shape):
        r = self.r
        w = r.choice([(0, 1, 2), (0, 1), (0, 1, 1, 2, 3), (1, 2), (0, 1, 2, 3, self.F.p - 1)])
        def mk(x):
            if isinstance(x, list): return [mk(y) for y in x]
            if isinstance(x, dict): return {k: mk(v) for k, v in x.items()}
            return r.choice(w)
        return {k: mk(v) for k, v in shape.items()}


def balanced_inputs(case, rng, g, n, tries=60):
    """inputs of both outcomes where they exist, found with the reference alone"""
    def flips(inp):
        # change one value
        leaves = []
        def walk(x, setter):
            if isinstance(x, list):
                for i in range(len(x)): walk(x[i], lambda v, x=x, i=i: x.__setitem__(i, v))
            elif isinstance(x, dict):
                for k in x: walk(x[k], lambda v, x=x, k=k: x.__setitem__(k, v))
            else: leaves.append(setter)
        import copy
        y = copy.deepcopy(inp)
        walk(y, None)
        if leaves: rng.choice(leaves)(rng.choice([0, 1, 2, 3]))
        return y
    good, bad = [], []
    from .lang import Skip, Invalid
    for k in range(tries):
        if len(good) >= (n + 1) // 2 and len(bad) >= n // 2: break
        inp = flips(rng.choice(good)) if good and rng.random() < .6 else g.inputs(case.shape)
        try:
            it, f = case.ref(inp)
        except Skip:
            continue
        (bad if f else good).append(inp)
    return good[:(n + 1) // 2] + bad[:n // 2]
