"""Random generator of well-formed circom programs (as lang.py ASTs) that exercise the
documented language: parameters, loops, functions, arrays, components (single, arrays,
heterogeneous, anonymous, parallel), tuples, buses, known and unknown control flow."""
import random
from .lang import Prog, Template

def N(k): return ("num", k)
def Vr(n, *acc): return ("var", n, tuple(acc))
def I(e): return ("i", e)
def Fd(n): return ("f", n)
def B(op, a, b): return ("bin", op, a, b)


def subst(e, m):
    if not isinstance(e, tuple): return e
    if e and e[0] == "var" and e[1] in m and not e[2]:
        return m[e[1]]
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in e)


class Ref:
    """a readable signal structure: base expression accesses + remaining dims"""
    def __init__(self, name, pre=(), dims=(), bus=None):
        self.name, self.pre, self.dims, self.bus = name, tuple(pre), tuple(dims), bus


class BusT(list):
    """fields of a bus together with the identity of its type (name, argument)"""
    def __init__(self, fields, ident):
        super().__init__(fields); self.ident = ident

    def __eq__(self, other): return isinstance(other, BusT) and self.ident == other.ident
    def __ne__(self, other): return not self == other
    __hash__ = None


class Iface:
    def __init__(self, name, params, ins, outs, parallel=False):
        self.name, self.params, self.ins, self.outs, self.parallel = name, params, ins, outs, parallel
        # ins/outs: list of (name, dims(AST in params), bus|None); params: list of kinds 'size'|'const'


DEFAULT = dict(functions=3, leafs=2, mids=2, stmts=(2, 6), depth=3, buses=True, anon=True, tuples=True, arrays=True,
               unknown_if=True, nonquad=True, logs=True, asserts=True, parallel=False, subs=True, bigconst=True,
               while_loops=True, unknown_index=True, main_size=3, tags=False, hetero=True, main_bus=False,
               only_quad=False, max_dim2=True)


class Ctx:
    def __init__(self):
        self.known, self.sigs, self.lin, self.quad, self.anyv, self.idx = [], [], [], [], [], []
        self.karr = []       # known arrays (name, dim)
        self.anyarr = []     # runtime arrays (name, dim)
        self.pos = {}        # known to be >= 1 and small
        self.infn = False
        self.bools = []


class Gen:
    def __init__(self, rng, F, **opts):
        self.r, self.F = rng, F
        self.o = dict(DEFAULT); self.o.update(opts)
        self.P = Prog()
        self.cnt = 0
        self.funcs = []   # (name, nargs, kind)  kind 'lin'|'any'|'known' , arr-size or None
        self.lib = []
        self.buses = []   # (name, params(n), fields [(name, dims)])

    def fresh(self, p):
        self.cnt += 1
        return "%s%d" % (p, self.cnt)

    def const(self):
        r = self.r
        k = r.random()
        if k < .6 or not self.o["bigconst"]:
            return N(r.randrange(0, 12))
        if k < .8:
            return N(r.randrange(0, 1 << r.choice([8, 31, 32, 33, 63, 64])))
        return N(self.F.rand(r))

    # ---------------------------------------------------------- expressions
    def known(self, c, d=2):
        r = self.r
        k = r.random()
        if d <= 0 or k < .45:
            if c.known and r.random() < .6:
                return Vr(r.choice(c.known))
            if c.karr and r.random() < .5:
                n, dim = r.choice(c.karr)
                return Vr(n, I(self.index(c, dim)))
            return self.const()
        if k < .8:
            return B(r.choice(["+", "-", "*"]), self.known(c, d - 1), self.known(c, d - 1))
        if k < .9:
            op = r.choice(["&", "|", "^", "==", "<", ">", "!=", "<=", ">=", "&&", "||"])
            return B(op, self.known(c, d - 1), self.known(c, d - 1))
        if k < .94:
            return B(r.choice(["<<", ">>", "**"]), self.known(c, d - 1), N(r.randrange(0, 5)))
        if k < .97:
            return B(r.choice(["%", "\\", "/"]), self.known(c, d - 1), N(r.randrange(1, 9)))
        return ("tern", self.known(c, d - 1), self.known(c, d - 1), self.known(c, d - 1))

    def index(self, c, dim):
        """known index valid for dimension `dim`"""
        r = self.r
        cand = [n for n, b in c.idx if b == dim]
        if cand and r.random() < .75:
            v = r.choice(cand)
            if r.random() < .15:
                return B("-", B("-", dim, N(1)), Vr(v))
            return Vr(v)
        k = r.random()
        if dim[0] == "num":
            return N(r.randrange(dim[1]))
        if k < .4: return N(0)
        if k < .7: return B("-", dim, N(1))
        return B("%", self.known(c, 1), dim) if r.random() < .5 else N(0)

    def sig(self, c, unk=False):
        r = self.r
        if not c.sigs: return None
        s = r.choice(c.sigs)
        return self.elem(c, s, unk)

    def elem(self, c, s, unk=False, full=True):
        r = self.r
        acc = list(s.pre)
        for dm in s.dims:
            if unk and r.random() < .25 and self.o["unknown_index"]:
                acc.append(I(B("%", self.any(c, 1), dm)))
            else:
                acc.append(I(self.index(c, dm)))
        if s.bus:
            f = r.choice(s.bus)
            acc.append(Fd(f[0]))
            for dm in f[1]:
                acc.append(I(self.index(c, dm)))
        return Vr(s.name, *acc)

    def atom(self, c):
        r = self.r
        if c.lin and r.random() < .3:
            return Vr(r.choice(c.lin))
        return self.sig(c) or (Vr(r.choice(c.lin)) if c.lin else self.known(c, 1))

    def lin(self, c, d=2):
        r = self.r
        k = r.random()
        if d <= 0 or k < .35: return self.atom(c)
        if k < .7: return B(r.choice("+-"), self.lin(c, d - 1), self.lin(c, d - 1))
        if k < .8: return B("*", self.known(c, 1), self.lin(c, d - 1))
        if k < .85: return B("*", self.lin(c, d - 1), self.known(c, 1))
        if k < .9: return ("un", "-", self.lin(c, d - 1))
        if k < .93: return B("/", self.lin(c, d - 1), N(r.randrange(1, 9)))
        fs = [f for f in self.funcs if f[2] == "lin"]
        if fs and k < .97:
            f = r.choice(fs)
            return ("call", f[0], tuple(self.lin(c, d - 1) for _ in range(f[1])))
        return B(r.choice("+-"), self.lin(c, d - 1), self.known(c, 1))

    def quad(self, c, d=2):
        r = self.r
        k = r.random()
        if k < .3: return self.lin(c, d)
        if k < .42 and c.quad:
            e = Vr(r.choice(c.quad))
        elif k < .5 :
            e = B("**", self.atom_sigish(c), N(2))
        else:
            e = B("*", self.lin(c, d - 1), self.lin(c, d - 1))
        k = r.random()
        if k < .2: e = ("un", "-", e)
        elif k < .35: e = B("*", self.nzknown(c), e)
        elif k < .4: e = B("/", e, N(r.randrange(1, 9)))
        if r.random() < .6:
            a, b = e, self.lin(c, d - 1)
            if r.random() < .5 : e = B(r.choice("+-"), a, b)
            else: e = B(r.choice("+-"), b, a)
        return e

    def atom_sigish(self, c):
        return self.sig(c) or self.lin(c, 0)

    def nzknown(self, c):
        return N(self.r.randrange(1, 20))

    def any(self, c, d=3):
        r = self.r
        k = r.random()
        if d <= 0 or k < .25:
            opts = []
            if c.sigs: opts.append(lambda: self.sig(c, unk=d > 0))
            if c.anyv: opts.append(lambda: Vr(r.choice(c.anyv)))
            if c.lin: opts.append(lambda: Vr(r.choice(c.lin)))
            if c.quad: opts.append(lambda: Vr(r.choice(c.quad)))
            if c.anyarr:
                def f():
                    n, dm = r.choice(c.anyarr)
                    return Vr(n, I(B("%", self.any(c, 0), dm) if r.random() < .4 and d > 0 else self.index(c, dm)))
                opts.append(f)
            opts.append(lambda: self.known(c, 1))
            return r.choice(opts)()
        if k < .5: return B(r.choice(["+", "-", "*"]), self.any(c, d - 1), self.any(c, d - 1))
        if k < .62: return B(r.choice(["&", "|", "^"]), self.any(c, d - 1), self.any(c, d - 1))
        if k < .72: return B(r.choice(["==", "!=", "<", "<=", ">", ">="]), self.any(c, d - 1), self.any(c, d - 1))
        if k < .77: return B(r.choice(["&&", "||"]), self.any(c, d - 1), self.any(c, d - 1))
        if k < .82: return B(r.choice(["<<", ">>"]), self.any(c, d - 1), N(r.randrange(0, 70)))
        if k < .87:
            den = B("+", B("&", self.any(c, d - 1), N(r.choice([3, 7, 255, 65535]))), N(1))
            return B(r.choice(["/", "\\", "%"]), self.any(c, d - 1), den)
        if k < .89: return B("**", self.any(c, d - 1), N(r.randrange(0, 9)))
        if k < .93: return ("un", r.choice(["-", "!", "~"]), self.any(c, d - 1))
        fs = [f for f in self.funcs if f[2] in ("lin", "any") and f[0] not in getattr(c, "nocall", ())]
        if fs and k < .97:
            f = r.choice(fs)
            return ("call", f[0], tuple(self.any(c, d - 2) for _ in range(f[1])))
        if c.infn: return self.any(c, d - 1)
        return ("tern", self.any(c, d - 1), self.any(c, d - 1), self.any(c, d - 1))

    # ----------------------------------------------------------- functions
    def gen_function(self):
        r = self.r
        name = self.fresh("f")
        kind = r.choice(["lin", "any", "any", "any"])
        na = r.randrange(1, 3)
        ps = ["p%d" % i for i in range(na)]
        c = Ctx(); c.infn = True
        if kind == "lin":
            c.lin = list(ps)
            body = []
            if r.random() < .6:
                v = "acc"
                body += [("let", v, (), N(r.randrange(5))),
                         ("for", ("let", "i", (), N(0)), B("<", Vr("i"), N(r.randrange(1, 4))), ("inc", Vr("i"), "++"),
                          [("set", "+=", Vr(v), B("*", B("+", Vr("i"), N(1)), Vr(r.choice(ps))))])]
                c.lin.append(v)
            body.append(("ret", self.lin(c, 2)))
        else:
            c.anyv = list(ps)
            body = self.fn_body(c, 2)
            body.append(("ret", self.any(c, 2)))
        self.P.add_f(name, ps, body)
        self.funcs.append((name, na, kind))

    def fn_body(self, c, d):
        """runtime-style statements on variables (usable in functions and templates)"""
        r = self.r
        out = []
        for _ in range(r.randrange(1, 4)):
            k = r.random()
            if k < .35:
                v = self.fresh("v"); out.append(("let", v, (), self.any(c, 2))); c.anyv.append(v)
            elif k < .45:
                v = self.fresh("w"); n = r.randrange(2, 5)
                out.append(("let", v, (N(n),), None)); c.anyarr.append((v, N(n)))
                i = self.fresh("i")
                c2 = self.inner(c); c2.known.append(i); c2.idx.append((i, N(n)))
                out.append(("for", ("let", i, (), N(0)), B("<", Vr(i), N(n)), ("inc", Vr(i), "++"),
                            [("set", "=", Vr(v, I(Vr(i))), self.any(c2, 2))]))
            elif k < .75 and c.anyv_local():
                v = r.choice(c.anyv_local())
                th = [("set", r.choice(["=", "+=", "-=", "*=", "|=", "&=", "^="]), Vr(v), self.any(c, 2))]
                el = None
                if d > 0 and r.random() < .3:
                    ci = self.inner(c)
                    th += self.fn_body(ci, d - 1)
                if r.random() < .6:
                    el = [("set", "=", Vr(v), self.any(c, 2))]
                out.append(("if", self.any(c, 2), th, el))
            elif k < .88 and c.anyv_local() and self.o["while_loops"]:
                v = r.choice(c.anyv_local())
                i = self.fresh("k")
                out.append(("let", i, (), N(0)))
                out.append(("while", B("<", Vr(i), B("&", self.stable(c, v), N(r.choice([1, 3, 7])))),
                            [("set", r.choice(["+=", "*=", "^="]), Vr(v), self.any_ex(c, v)), ("inc", Vr(i), "++")]))
            elif c.anyarr:
                n, dm = r.choice(c.anyarr)
                out.append(("set", r.choice(["=", "+=", "*="]), Vr(n, I(B("%", self.any(c, 1), dm) if r.random() < .5 else self.index(c, dm))), self.any(c, 2)))
        return out

    def stable(self, c, avoid):
        """an expression that the loop body does not modify: bound of a while loop"""
        cand = [x for x in c.anyv if x != avoid]
        if c.sigs and self.r.random() < .7: return self.sig(c)
        if cand: return Vr(self.r.choice(cand))
        return N(self.r.randrange(8))

    def any_ex(self, c, v):
        return self.any(c, 2)

    def inner(self, c):
        c2 = Ctx()
        for k in ("known", "sigs", "lin", "quad", "anyv", "idx", "karr", "anyarr", "bools"):
            setattr(c2, k, list(getattr(c, k)))
        c2.infn = c.infn
        return c2

    # ----------------------------------------------------------- templates
    def dims(self, c, size_params):
        r = self.r
        if not self.o["arrays"]: return ()
        k = r.random()
        n = 0 if k < .5 else (1 if k < .85 or not self.o["max_dim2"] else 2)
        out = []
        for _ in range(n):
            if size_params and r.random() < .6: out.append(Vr(r.choice(size_params)))
            else: out.append(N(r.randrange(1, 4)))
        return tuple(out)

    def loops(self, c, dims, mk):
        """nest for-loops over dims; mk(c, accs) -> stmts"""
        if not dims:
            return mk(c, ())
        i = self.fresh("i")
        c2 = self.inner(c); c2.known.append(i); c2.idx.append((i, dims[0]))
        inner = self.loops(c2, dims[1:], lambda cc, a: mk(cc, (I(Vr(i)),) + a))
        return [("for", ("let", i, (), N(0)), B("<", Vr(i), dims[0]), self.incr(i), inner)]

    def incr(self, i):
        k = self.r.random()
        if k < .6: return ("inc", Vr(i), "++")
        if k < .8: return ("set", "+=", Vr(i), N(1))
        return ("set", "=", Vr(i), B("+", Vr(i), N(1)))

    def assign(self, c, name, pre, dims, bus=None, fresh_decl=None):
        """statements that assign every element of signal name.pre[dims] (or a bus)"""
        r = self.r
        same = [s for s in c.sigs if s.dims == tuple(dims) and s.bus == bus]
        if (dims or bus) and same and r.random() < .3:
            s = r.choice(same)
            return [("set", r.choice(["<==", "<==", "<--"]) if self.o["nonquad"] else "<==", Vr(name, *pre), Vr(s.name, *s.pre))]
        if bus:
            def mkb(cc, a):
                out = []
                for f, fd in bus:
                    out += self.assign(cc, name, tuple(pre) + a + (Fd(f),), fd)
                return out
            return self.loops(c, dims, mkb)
        if dims and all(x[0] == "num" for x in dims) and len(dims) == 1 and r.random() < .25:
            return [("set", "<==", Vr(name, *pre), ("arr", tuple(self.quad(c, 2) for _ in range(dims[0][1]))))]

        def mk(cc, a):
            l = Vr(name, *(tuple(pre) + a))
            k = r.random()
            if not self.o["nonquad"] or k < .5:
                e = self.quad(cc, 2)
                return [("set", "<==", l, e)] if r.random() < .85 else [("set", "==>", e, l)]
            if k < .68:
                e = self.any(cc, self.o["depth"])
                return [("set", "<--", l, e)] if r.random() < .9 else [("set", "-->", e, l)]
            if k < .76:
                return [("set", "<--", l, B(r.choice(["<", "==", "!=", ">="]), self.any(cc, 1), self.any(cc, 1))),
                        ("ceq", B("*", l, B("-", l, N(1))), N(0))]
            if k < .83:
                e = self.quad(cc, 1)
                return [("set", "<--", l, e), ("ceq", l, e) if r.random() < .5 else ("ceq", e, l)]
            if k < .9:
                e = self.known(cc, 2)
                th, el = self.quad(cc, 1), self.quad(cc, 1)
                return [("if", e, [("set", "<==", l, th)], [("set", "<==", l, el)])]
            if k < .95:
                v = self.fresh("v")
                cc2 = self.inner(cc); cc2.anyv.append(v)
                return [("let", v, (), N(0))] + [("if", self.any(cc, 1), [("set", "=", Vr(v), self.any(cc, 2))],
                                                  [("set", "=", Vr(v), self.any(cc, 2))]), ("set", "<--", l, Vr(v))]
            return [("set", "<--", l, ("tern", self.any(cc, 1), self.any(cc, 1), self.any(cc, 1)))]
        return self.loops(c, dims, mk)

    def lib_args(self, c, t, known_small):
        """arguments for template t: sizes are small positive known expressions"""
        r = self.r
        args = []
        for kind in t.params:
            if kind == "size":
                ch = [N(r.randrange(1, 4))]
                ch += [Vr(x) for x in known_small]
                args.append(r.choice(ch))
            else:
                args.append(self.const() if r.random() < .5 else (Vr(r.choice(c.known)) if c.known else self.const()))
        return args

    def use_sub(self, c, sizes):
        r = self.r
        t = r.choice(self.lib)
        out = []
        names = ["N%d" % i for i in range(len(t.params))]
        k = r.random()
        args = self.lib_args(c, t, sizes)
        m = dict(zip(t.pnames, args))
        sd = lambda ds: tuple(subst(x, m) for x in ds)
        sb = lambda b: None if b is None else BusT([(f, sd(fd)) for f, fd in b], (b.ident[0], subst(b.ident[1], m) if b.ident[1] else None))
        if self.o["anon"] and k < .25 and t.outs and all(b is None for _, _, b, *_ in t.ins + t.outs) and not any(len(x) > 3 and x[3] for x in t.ins):
            ins = []
            pre = []
            for n, ds, b, *_ in t.ins:
                ds = sd(ds)
                if ds:
                    s = self.fresh("s")
                    pre.append(("sig", "", (), s, ds, None, None))
                    pre += self.assign(c, s, (), ds)
                    c.sigs.append(Ref(s, (), ds))
                    ins.append(Vr(s))
                else:
                    ins.append(self.quad(c, 1))
            nm = None
            if r.random() < .4:
                nm = [n for n, *_ in t.ins]
                o = list(range(len(nm))); r.shuffle(o)
                nm = tuple(nm[i] for i in o); ins = [ins[i] for i in o]
            e = ("anon", t.name, tuple(args), tuple(ins), nm, self.o["parallel"] and r.random() < .4)
            dsts = []
            for n, ds, b, *_ in t.outs:
                ds = sd(ds)
                if len(t.outs) > 1 and r.random() < .25 and self.o["tuples"]:
                    dsts.append(None); continue
                s = self.fresh("s")
                pre.append(("sig", "", (), s, ds, None, None))
                dsts.append((s, ds))
            if not dsts or (len(t.outs) > 1 and not self.o["tuples"]):
                return pre
            op = "<==" 
            if len(t.outs) == 1:
                pre.append(("set", op, Vr(dsts[0][0]), e))
            else:
                pre.append(("tupset", [None if x is None else Vr(x[0]) for x in dsts], op, e))
            for x in dsts:
                if x: c.sigs.append(Ref(x[0], (), x[1]))
            return pre
        if k < .7 or not t.ins:
            n = self.fresh("c")
            inst = ("inst", t.name, tuple(args), self.o["parallel"] and r.random() < .4)
            if r.random() < .7: out.append(("comp", n, (), inst))
            else: out += [("comp", n, (), None), ("set", "=", Vr(n), inst)]
            ins = list(t.ins); r.shuffle(ins)
            for inn, ds, b, *_ in ins:
                out += self.assign(c, n, (Fd(inn),), sd(ds), sb(b))
            for on, ds, b, *_ in t.outs:
                c.sigs.append(Ref(n, (Fd(on),), sd(ds), sb(b)))
            return out
        # array of components, possibly with parameters depending on the position
        n = self.fresh("c")
        D = Vr(r.choice(sizes)) if sizes and r.random() < .5 else N(r.randrange(1, 4))
        i = self.fresh("i")
        het = self.o["hetero"] and r.random() < .4
        if het:
            args = [B("+", Vr(i), N(1)) if (kk == "size" or r.random() < .5) else a for kk, a in zip(t.params, args)]
            m = dict(zip(t.pnames, args))
        c2 = self.inner(c); c2.known.append(i); c2.idx.append((i, D))
        body = [("set", "=", Vr(n, I(Vr(i))), ("inst", t.name, tuple(args), self.o["parallel"] and r.random() < .4))]
        ins = list(t.ins); r.shuffle(ins)
        for inn, ds, b, *_ in ins:
            body += self.assign(c2, n, (I(Vr(i)), Fd(inn)), sd(ds), sb(b))
        loop = ("for", ("let", i, (), N(0)), B("<", Vr(i), D), self.incr(i), body)
        if r.random() < .3:
            # separate creation loop from wiring loop
            out += [("comp", n, (D,), None),
                    ("for", ("let", i, (), N(0)), B("<", Vr(i), D), self.incr(i), body[:1]),
                    ("for", ("let", i, (), N(0)), B("<", Vr(i), D), self.incr(i), body[1:])]
        else:
            out += [("comp", n, (D,), None), loop]
        for on, ds, b, *_ in t.outs:
            if het:
                # read one representative position
                o = self.fresh("s")
                m0 = {i: N(0)}
                dd = tuple(subst(x, m0) for x in sd(ds))
                c.sigs.append(Ref(n, (I(N(0)), Fd(on)), dd, None if b is None else BusT([(f, tuple(subst(x, m0) for x in fd)) for f, fd in sb(b)], (b.ident[0], subst(sb(b).ident[1], m0) if b.ident[1] else None))))
            else:
                c.sigs.append(CompArrRef(n, D, (Fd(on),), sd(ds), sb(b)))
        return out

    def stmt(self, c, sizes):
        r, o = self.r, self.o
        k = r.random()
        if k < .3:
            s = self.fresh("s"); ds = self.dims(c, sizes)
            if not ds and r.random() < .5:
                e = self.quad(c, 2)
                if o["nonquad"] and r.random() < .3: st = [("sig", "", (), s, (), None, ("<--", self.any(c, o["depth"])))]
                else: st = [("sig", "", (), s, (), None, ("<==", e))]
            else:
                st = [("sig", "", (), s, ds, None, None)] + self.assign(c, s, (), ds)
            c.sigs.append(Ref(s, (), ds))
            return st
        if k < .38:
            v = self.fresh("l")
            st = [("let", v, (), self.lin(c, 1))]
            ds = (Vr(r.choice(sizes)),) if sizes and r.random() < .5 else (N(r.randrange(1, 4)),)
            st += self.loops(c, ds, lambda cc, a: [("set", r.choice(["+=", "-="]), Vr(v), self.lin(cc, 2))])
            c.lin.append(v)
            return st
        if k < .43:
            v = self.fresh("q")
            c2 = self.inner(c); c2.quad = []
            st = [("let", v, (), B("*", self.lin(c2, 1), self.lin(c2, 1)))]
            c.quad.append(v)
            return st
        if k < .5:
            v = self.fresh("k")
            D = Vr(r.choice(sizes)) if sizes and r.random() < .6 else N(r.randrange(1, 5))
            if r.random() < .5:
                st = [("let", v, (D,), None)] + self.loops(c, (D,), lambda cc, a: [("set", "=", Vr(v, *a), self.known(cc, 2))])
                c.karr.append((v, D))
            else:
                st = [("let", v, (), self.known(c, 1))]
                st += self.loops(c, (D,), lambda cc, a: [("set", r.choice(["+=", "*=", "=", "^="]), Vr(v), self.known(cc, 1))])
                c.known.append(v)
            return st
        if k < .62 and o["unknown_if"] and o["nonquad"]:
            return self.fn_body(c, 1)
        if k < .68 and o["asserts"]:
            e = self.any(c, 1) if o["nonquad"] else self.lin(c, 1)
            return [("assert", r.choice([B("==", e, e), B("<", B("&", e, N(7)), N(8)), N(1), B("||", e, N(1)), B(">=", e, e)]))]
        if k < .74 and o["logs"]:
            its = []
            for _ in range(r.randrange(1, 4)):
                its.append(r.choice(["msg", "a b", "x=", "val:"]) if r.random() < .4 else (self.any(c, 1) if o["nonquad"] else self.lin(c, 1)))
            return [("log", its)]
        if k < .78:
            e = self.lin(c, 1)
            return [("ceq", e, e)] if r.random() < .5 else [("ceq", self.known_pair(c), N(0))]
        if k < .85 and o["buses"] and self.buses:
            return self.use_bus(c, sizes)
        if k < .88 and o["tuples"] and o["anon"]:
            a, b = self.fresh("s"), self.fresh("s")
            st = [("sig", "", (), a, (), None, None), ("sig", "", (), b, (), None, None),
                  ("tupset", [Vr(a), Vr(b)], "<==", ("tup", (self.quad(c, 1), self.quad(c, 1))))]
            c.sigs += [Ref(a), Ref(b)]
            return st
        if o["subs"] and self.lib:
            return self.use_sub(c, sizes)
        s = self.fresh("s")
        st = [("sig", "", (), s, (), None, None)] + self.assign(c, s, (), ())
        c.sigs.append(Ref(s))
        return st

    def known_pair(self, c):
        e = self.lin(c, 1)
        return B("-", e, e)

    def use_bus(self, c, sizes):
        r = self.r
        bn, nparam, fields = r.choice(self.buses)
        arg = (Vr(r.choice(sizes)) if sizes and r.random() < .5 else N(r.randrange(1, 4))) if nparam else None
        m = {"n": arg} if nparam else {}
        fl = BusT([(f, tuple(subst(x, m) for x in fd)) for f, fd in fields], (bn, arg))
        b = self.fresh("b")
        ds = (N(r.randrange(1, 3)),) if r.random() < .3 else ()
        st = [("sig", "", (), b, ds, (bn, (arg,) if nparam else ()), None)]
        st += self.assign(c, b, (), ds, fl)
        c.sigs.append(Ref(b, (), ds, fl))
        return st

    def gen_bus(self):
        r = self.r
        n = self.fresh("Bus")
        p = r.random() < .6
        fields = []
        for k in range(r.randrange(1, 4)):
            ds = ()
            if r.random() < .5: ds = (Vr("n") if p and r.random() < .7 else N(r.randrange(1, 3)),)
            fields.append(("x%d" % k, ds))
        self.P.add_b(n, ["n"] if p else [], [("sig", "", (), f, ds, None, None) for f, ds in fields])
        self.buses.append((n, p, fields))

    def gen_template(self, level, main=False):
        r, o = self.r, self.o
        name = self.fresh("T" if not main else "Main")
        np_ = r.randrange(0, 3) if not main else r.randrange(0, 2)
        kinds = [r.choice(["size", "const"]) for _ in range(np_)]
        pn = ["%s%d" % ("n" if k == "size" else "k", j) for j, k in enumerate(kinds)]
        sizes = [p for p, k in zip(pn, kinds) if k == "size"]
        c = Ctx()
        c.known = list(pn)
        decl, ins, outs = [], [], []
        parts = []
        nin = r.randrange(1, 4) if main or r.random() < .92 else 0
        for j in range(nin):
            ds = self.dims(c, sizes)
            bus = None
            bn = None
            if o["buses"] and self.buses and r.random() < .2 and (not main or o["main_bus"]):
                b = r.choice(self.buses)
                arg = (Vr(r.choice(sizes)) if sizes and r.random() < .5 else N(r.randrange(1, 4)))
                bus = BusT([(f, tuple(subst(x, {"n": arg}) for x in fd)) for f, fd in b[2]], (b[0], arg if b[1] else None))
                bn = (b[0], (arg,) if b[1] else ())
                ds = ds[:1]
            n = "in%d" % j
            parts.append(("sig", "input", (), n, ds, bn, None))
            ins.append((n, ds, bus))
            c.sigs.append(Ref(n, (), ds, bus))
        for j in range(r.randrange(1, 4)):
            ds = self.dims(c, sizes)
            bus = bn = None
            if o["buses"] and self.buses and r.random() < .15:
                b = r.choice(self.buses)
                arg = (Vr(r.choice(sizes)) if sizes and r.random() < .5 else N(r.randrange(1, 4)))
                bus = BusT([(f, tuple(subst(x, {"n": arg}) for x in fd)) for f, fd in b[2]], (b[0], arg if b[1] else None))
                bn = (b[0], (arg,) if b[1] else ())
                ds = ds[:1]
            n = "out%d" % j
            parts.append(("sig", "output", (), n, ds, bn, None))
            outs.append((n, ds, bus))
        # keep the relative order of inputs but interleave
        pi = [x for x in parts if x[1] == "input"]; po = [x for x in parts if x[1] == "output"]
        body = []
        while pi or po:
            q = pi if pi and (not po or r.random() < .5) else po
            body.append(q.pop(0))
        if not c.sigs:
            s = self.fresh("s")
            body += [("sig", "", (), s, (), None, ("<==", self.known(c, 2)))]
            c.sigs.append(Ref(s))
        for _ in range(r.randrange(*o["stmts"]) + (2 if main else 0)):
            body += self.stmt(c, sizes)
        todo = list(outs); r.shuffle(todo)
        for n, ds, bus in todo:
            body += self.assign(c, n, (), ds, bus)
            if r.random() < .5: c.sigs.append(Ref(n, (), ds, bus))
        t = Template(name, pn, body, parallel=(o["parallel"] and not main and r.random() < .4))
        self.P.add_t(t)
        f = Iface(name, kinds, ins, outs)
        f.pnames = pn
        return f

    def program(self):
        r, o = self.r, self.o
        if o["buses"]:
            for _ in range(r.randrange(1, 3)): self.gen_bus()
        for _ in range(r.randrange(0, o["functions"] + 1)): self.gen_function()
        if o["subs"]:
            for _ in range(o["leafs"]):
                sub, self.o = self.o, dict(self.o, subs=False)
                f = self.gen_template(0); self.o = sub
                self.lib.append(f)
            for _ in range(o["mids"]):
                self.lib.append(self.gen_template(1))
        m = self.gen_template(2, main=True)
        self.main_iface = m
        self.P.main = (m.name, tuple(N(r.randrange(1, 4)) if k == "size" else self.const() for k in m.params))
        pub = [n for n, *_ in m.ins if r.random() < .4]
        r.shuffle(pub)
        self.P.public = pub
        return self.P

    def inputs(self, shape):
        r = self.r
        def mk(x):
            if isinstance(x, list): return [mk(y) for y in x]
            if isinstance(x, dict): return {k: mk(v) for k, v in x.items()}
            return self.F.rand(r)
        return {k: mk(v) for k, v in shape.items()}


def CompArrRef(n, D, acc, dims, bus):
    ref = Ref(n, (), (), None)
    return _CA(n, D, acc, dims, bus)


class _CA(Ref):
    def __init__(self, n, D, acc, dims, bus):
        Ref.__init__(self, n, (), (), None)
        self.D, self.acc, self.d2, self.b2 = D, acc, dims, bus
        self.dims = ("comparr",)


def _anyv_local(self):
    return [v for v in self.anyv if not v.startswith("p")]


Ctx.anyv_local = _anyv_local

_old_elem = Gen.elem


def elem(self, c, s, unk=False, full=True):
    if isinstance(s, _CA):
        i = self.index(c, s.D)
        return _old_elem(self, c, Ref(s.name, (I(i),) + s.acc, s.d2, s.b2), unk)
    return _old_elem(self, c, s, unk)


Gen.elem = elem
