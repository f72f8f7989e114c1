"""Random programs with tags, and a model of the tags of every instance."""
import random, re


class Illegal(Exception): pass
class Unspec(Exception): pass


class Node:
    """tags of a wire (or of a field of a bus)"""

    def __init__(self, decl, cells):
        self.decl, self.tags, self.explicit, self.rem, self.init, self.fields, self.size = set(decl), {t: None for t in decl}, set(), cells, False, {}, 1

    def carried(self):
        c = {}
        for t, v in self.tags.items():
            if t in self.explicit or self.rem == 0: c[t] = v
            elif t in self.decl: c[t] = None
        return c, {f: n.carried() for f, n in self.fields.items()}

    def receive(self, wt, cells):
        tags, fields = wt
        new = {}
        for t, v in self.tags.items():
            if t in self.explicit: new[t] = v
            elif t in self.decl: new[t] = tags.get(t) if not self.init or tags.get(t) == v else None
            elif t in tags and tags[t] == v: new[t] = v
        if not self.init:
            for t, v in tags.items(): new.setdefault(t, v)
        self.tags, self.init, self.rem = new, True, max(0, self.rem - cells)
        for f, n in self.fields.items(): n.receive(fields.get(f, NONE), cells * n.size)

    def started(self): return self.init or any(n.started() for n in self.fields.values())


NONE = ({}, {})


def join(a, b):
    return {t: v for t, v in a[0].items() if t in b[0] and b[0][t] == v}, {f: join(x, b[1][f]) for f, x in a[1].items() if f in b[1]}


def prod(l):
    x = 1
    for i in l: x *= i
    return x


class Wire:
    def __init__(self, kind, name, dims, tags=(), bus=None): self.kind, self.name, self.dims, self.tags, self.bus = kind, name, tuple(dims), list(tags), bus

    def text(self, strip):
        tg = "{%s} " % ", ".join(self.tags) if self.tags and not strip else ""
        ds = "".join("[%s]" % d for d in self.dims)
        k = self.kind + " " if self.kind else ""
        return "%s() %s%s%s%s;" % (self.bus, k, tg, self.name, ds) if self.bus else "signal %s%s%s%s;" % (k, tg, self.name, ds)


class Ref:
    """text; wire (or component, port); path of fields; remaining dims and bus; number of cells of the deepest node"""

    def __init__(self, text, wire, path, dims, bus, comp=None): self.text, self.wire, self.path, self.dims, self.bus, self.comp = text, wire, tuple(path), tuple(dims), bus, comp

    def shape(self): return self.dims, self.bus


class T:
    def __init__(self, name, g): self.name, self.g, self.wires, self.steps, self.uses = name, g, [], [], 0

    def ins(self): return [w for w in self.wires if w.kind == "input"]

    def outs(self): return [w for w in self.wires if w.kind == "output"]


TAGS = ["ta", "tb", "tc", "max", "bin"]


class Gen:
    def __init__(self, rng, p):
        self.r, self.p, self.cnt = rng, p, 0
        r = rng
        self.wild = r.choice([.02, .1, .3])
        self.buses = {}
        for i in range(r.choice([0, 1, 2])):
            fs = []
            for j in range(r.choice([1, 2, 3])):
                inner = r.choice(sorted(self.buses)) if self.buses and r.random() < .35 else None
                fs.append(("f%d" % j, r.choice([(), (), (2,)]), self.tags(.45), inner))
            self.buses["B%d" % i] = fs
        self.ts = []
        for i in range(r.choice([1, 2, 2, 3])): self.ts.append(self.template("T%d" % i))
        self.main = self.template("Main", True)
        self.mut = None

    def tags(self, pr):
        r = self.r
        return r.sample(TAGS, r.choice([1, 1, 2])) if r.random() < pr else []

    def name(self, p):
        self.cnt += 1
        return "%s%d" % (p, self.cnt)

    # ------------------------------------------------------------ buses
    def bsize(self, b): return sum(prod(d) * (self.bsize(x) if x else 1) for _, d, _, x in self.buses[b]) if b else 1

    def node(self, decl, cells, bus):
        n = Node(decl, cells)
        if bus:
            for f, d, tg, b in self.buses[bus]:
                n.fields[f] = self.node(tg, cells * prod(d), b)
                n.fields[f].size = prod(d)
        return n

    def tree(self, decl, bus):
        """declared tags of an input, without values"""
        return {"tags": {t: KeyError for t in decl}, "fields": {f: self.tree(tg, b) for f, d, tg, b in self.buses[bus]} if bus else {}}

    def bus_tags(self, bus): return any(tg or (b and self.bus_tags(b)) for _, _, tg, b in self.buses[bus]) if bus else False

    # ------------------------------------------------------------ references
    def refs(self, t, w, comp=None, full=False):
        """all references into a wire: (text, path, dims, bus), indices 0 and last"""
        r = self.r
        out = []

        def rec(text, path, dims, bus):
            out.append(Ref(text, w, path, dims, bus, comp))
            if dims:
                for ix in ([0, "n - 1"] if dims[0] == "n" else range(dims[0])): rec(text + "[%s]" % ix, path, dims[1:], bus)
            elif bus:
                for f, d, tg, b in self.buses[bus]: rec(text + "." + f, path + [f], list(d), b)
        rec((comp + "." if comp else "") + w.name, [], list(w.dims), w.bus)
        return out

    def refsof(self, t, shape, leaf=False):
        c = [x for x in t.have if x.shape() == shape]
        return self.r.choice(c) if c else None

    # ------------------------------------------------------------ values
    def value(self, t):
        """(text, fn(env)) known"""
        r = self.r
        k = r.randrange(8)
        v = r.choice([0, 1, 2, 3, 5, 5, 7])
        if k < 3: return str(v), lambda e: v
        if k == 3: return "-%d" % v, lambda e: -v % self.p
        if k == 4: return "%d + %d" % (v, self.p), lambda e: v
        if t.name != "Main":
            if k == 5: return "k", lambda e: e["k"]
            if k == 6: return "n + %d" % v, lambda e: e["n"] + v
        h = self.readable(t)
        if h and r.random() < .6:
            tx, fn = h
            return "%s + %d" % (tx, v), lambda e: (fn(e) + v) % self.p
        return "(%d)" % v, lambda e: v

    def readable(self, t):
        """a tag that can be read, likely with value: (text, fn(env))"""
        c = t.valued if self.r.random() < self.wild else t.sure
        return self.r.choice(c) if c else None

    def tagread(self, w, path, tag, comp=None):
        def fn(e):
            if comp: n, f = e["comps"][comp]["outs"], (w.name,) + tuple(path)
            if comp:
                if n is None: raise Illegal("output of an incomplete component")
                x = n[f[0]]
                for y in f[1:]: x = x[1][y]
                v = x[0].get(tag)
            else:
                x = e["nodes"][w.name]
                for y in path: x = x.fields[y]
                v = x.tags.get(tag)
                if tag not in x.explicit and x.rem: v = None
            if v is None: raise Illegal("tag %s of %s without value" % (tag, w.name))
            return v
        return (comp + "." if comp else "") + ".".join([w.name] + list(path) + [tag]), fn

    # ------------------------------------------------------------ templates
    def template(self, name, main=False):
        r = self.r
        t = T(name, self)
        t.have, t.valued, t.sure, t.todo, t.settable = [], [], [], [], []
        dims = lambda: r.choice([(), (), (), (2,), (2,), (2, 2)] + ([("n",)] * 2 if not main else []))
        bus = lambda q: r.choice(sorted(self.buses)) if self.buses and r.random() < q else None
        for i in range(r.choice([1, 2, 3])):
            b = bus(.3)
            if main and self.bus_tags(b): b = None
            w = Wire("input", "i%d" % i, dims(), [] if main else self.tags(.55), b)
            self.declare(t, w); self.got(t, w)
        w = Wire("input", "z", (), [], None); self.declare(t, w); self.got(t, w)
        for i in range(r.choice([1, 2])):
            w = Wire("output", "o%d" % i, dims(), self.tags(.6), bus(.3)); self.declare(t, w); t.todo.append(w)
        for i in range(r.choice([0, 1, 2, 3])):
            w = Wire("", "s%d" % i, dims(), self.tags(.5), bus(.3)); self.declare(t, w); t.todo.append(w)
        r.shuffle(t.todo)
        for _ in range(r.choice([2, 4, 6, 9])):
            k = r.randrange(10)
            if k < 3: self.settag(t)
            elif k < 6 and t.todo: self.assign(t, t.todo.pop())
            elif k < 8 and self.ts: self.comp(t, r.choice(self.ts))
            else: self.read(t)
        while t.todo and (r.random() < .8 or t.todo[-1].kind == "output"): self.assign(t, t.todo.pop())
        t.todo = [w for w in t.todo if w.kind == "output"]
        while t.todo: self.assign(t, t.todo.pop())
        if main:
            for s in self.ts:
                if not s.uses or r.random() < .3: self.comp(t, s)
            self.read(t)
        return t

    def declare(self, t, w):
        t.wires.append(w)
        t.steps.append(("decl", w, None))
        t.steps[-1] = ("step", (lambda strip, w=w: w.text(strip)), (lambda e, w=w: self.x_decl(e, w)))
        # tags that may be set: of the wire, and of fields
        if w.kind != "input":
            def rec(path, tags, bus, dims):
                for tg in tags: t.settable.append((w, tuple(path), tg))
                if bus and not dims:
                    for f, d, tg2, b in self.buses[bus]: rec(path + [f], tg2, b, d)
            rec([], w.tags, w.bus, w.dims)

    def x_decl(self, e, w):
        cells = prod(e["n"] if d == "n" else d for d in w.dims)
        n = self.node(w.tags, cells, w.bus)
        if w.kind == "input" and not e["main"]:
            def fill(n, tr):
                n.rem, n.init = 0, True
                for t in n.tags: n.tags[t] = tr["tags"][t]
                for f in n.fields: fill(n.fields[f], tr["fields"][f])
            fill(n, e["in"][w.name])
        elif w.kind == "input":
            def full(n):
                n.rem, n.init = 0, True
                for x in n.fields.values(): full(x)
            full(n)
        e["nodes"][w.name] = n
        return w.text(True)

    def got(self, t, w):
        t.have += self.refs(t, w)
        def rec(path, tags, bus, dims):
            for tg in tags: t.valued.append(self.tagread(w, path, tg))
            if bus and not dims:
                for f, d, tg2, b in self.buses[bus]: rec(path + [f], tg2, b, d)
        rec([], w.tags, w.bus, w.dims)

    def step(self, t, text, fn): t.steps.append(("step", text if callable(text) else (lambda strip: text), fn))

    def settag(self, t, forced=None):
        r = self.r
        if not t.settable and not forced: return
        w, path, tg = forced or r.choice(t.settable)
        if not forced: t.settable.remove((w, path, tg))
        vt, vf = self.value(t)
        tx = ".".join([w.name] + list(path) + [tg])
        guard = r.choice(["", "", "", "if (n > 0) { %s }", "if (n == 2) { %s }", "for (var q = 0; q < 1; q++) { %s }"]) if t.name != "Main" else r.choice(["", "", "if (1 < 2) { %s }"])

        def fn(e):
            if "== 2" in guard and e["n"] != 2: return ""
            v = vf(e)
            n = e["nodes"][w.name]
            if w.kind == "input": raise Illegal("tag of an input")
            up = [n]
            for f in path: n = n.fields[f]; up.append(n)
            if n.init: raise Illegal("tag %s set after a value" % tx)
            if n.started(): raise Unspec()
            if tg in n.explicit: raise Illegal("tag %s set twice" % tx)
            n.tags[tg] = v; n.explicit.add(tg)
            return ""
        s = "%s = %s;" % (tx, vt)
        self.step(t, (guard % s) if guard else s, fn)
        if "== 2" not in guard: t.sure.append(self.tagread(w, path, tg))

    # ------------------------------------------------------------ sources
    def leaf(self, t):
        """expression without tags"""
        a, b = self.refsof(t, ((), None)).text, self.refsof(t, ((), None)).text
        return self.r.choice(["%s + 1" % a, "%s * %s" % (a, b), "3", "%s - %s" % (a, b), "2 * %s" % a, "-%s" % a, "%s * %s + %s" % (a, b, a)])

    def src(self, t, shape, need=()):
        """(text, fn(env) -> carried tags) of this shape, or None"""
        r = self.r
        dims, bus = shape
        h = r.random()
        if not dims and not bus and h < .3 and not need: return self.leaf(t), lambda e: NONE
        if dims == (2,) and not bus and h < .35 and not need:
            a, b = self.refsof(t, ((), None)), self.refsof(t, ((), None))
            if r.random() < .3: return "[%s, %s]" % (a.text, self.leaf(t)), lambda e: NONE
            return "[%s, %s]" % (a.text, b.text), lambda e: join(self.carried(e, a), self.carried(e, b))
        c = [x for x in t.have if x.shape() == shape]
        if need:
            good = [x for x in c if set(need) <= set(self.static(x))]
            if good and r.random() < .8: c = good
            elif not good or r.random() < .93: return None
        if not c: return None
        x = r.choice(c)
        tx = x.text if r.random() < .85 or bus or dims else "(%s)" % x.text
        return tx, lambda e: self.carried(e, x)

    def static(self, x):
        if not x.path: return x.wire.tags
        b, tg = x.wire.bus, []
        for f in x.path: _, _, tg, b = next(q for q in self.buses[b] if q[0] == f)
        return tg

    def carried(self, e, x):
        if x.comp:
            c = e["comps"][x.comp]
            if c["outs"] is None: raise Illegal("output of an incomplete component")
            n = c["outs"][x.wire.name]
            for f in x.path: n = n[1][f]
            return n
        n = e["nodes"][x.wire.name]
        for f in x.path: n = n.fields[f]
        return n.carried()

    # ------------------------------------------------------------ assignments
    def assign(self, t, w):
        """a whole wire, in some way"""
        self.assign_ref(t, Ref(w.name, w, [], w.dims, w.bus), lambda e, x, tags, cells: self.x_assign(e, x, tags, cells))
        self.got(t, w)
        if self.r.random() < .97: t.settable = [s for s in t.settable if s[0] is not w]

    def x_assign(self, e, x, tags, cells):
        n = e["nodes"][x.wire.name]
        for f in x.path: n = n.fields[f]
        n.receive(tags, cells)

    def assign_ref(self, t, x, put, need=(), arrow=True):
        r = self.r
        dims, bus = x.dims, x.bus
        whole = .55 if dims or bus else 1
        if need and bus: whole = 1
        s = self.src(t, (dims, bus), need) if r.random() < whole else None
        if s is None and need: s = self.fresh(t, x, need)
        if s is None and not dims and not bus: s = self.leaf(t), lambda e: NONE
        if s is None and bus and not dims and put is None: return
        if s:
            tx, sf = s
            op = "<--" if arrow and not bus and r.random() < .15 else "<=="
            st = "%s %s %s;" % (x.text, op, tx) if r.random() < .85 else "%s %s %s;" % (tx, {"<==": "==>", "<--": "-->"}[op], x.text)

            def fn(e):
                tg = sf(e)
                put(e, x, tg if op == "<==" else NONE, prod(e["n"] if d == "n" else d for d in dims))
                return st
            self.step(t, st, fn)
            return
        if dims and dims[0] == "n" and not bus and len(dims) == 1:
            c = [y for y in t.have if y.shape() == (("n",), None)]
            q = self.name("q")
            if c and r.random() < .7:
                y = r.choice(c)
                st = "for (var %s = 0; %s < n; %s++) { %s[%s] <== %s[%s]; }" % (q, q, q, x.text, q, y.text, q)
                sf = lambda e: self.carried(e, y)
            else:
                lf = self.leaf(t); st = "for (var %s = 0; %s < n; %s++) { %s[%s] <== %s; }" % (q, q, q, x.text, q, lf)
                sf = lambda e: NONE

            def fn(e):
                for _ in range(e["n"]): put(e, x, sf(e), 1)
                return st
            self.step(t, st, fn)
            return
        if dims:
            if dims[0] == "n":
                # the whole through a loop over buses, or through a fresh wire of the same type
                w = Wire("", self.name("w"), dims, [], bus)
                if not bus or r.random() < .5:
                    return self.loopbus(t, x, put)
                return self.loopbus(t, x, put)
            order = list(range(dims[0]))
            if r.random() < .3: order.reverse()
            for i in order: self.assign_ref(t, Ref("%s[%d]" % (x.text, i), x.wire, x.path, dims[1:], bus, x.comp), put, need, arrow)
            return
        for f, d, tg, b in r.sample(self.buses[bus], len(self.buses[bus])):
            self.assign_ref(t, Ref("%s.%s" % (x.text, f), x.wire, x.path + (f,), d, b, x.comp), put, tg if x.comp else (), arrow)

    def loopbus(self, t, x, put):
        """dims starting with n: every element from leaves"""
        q = self.name("q")
        leaves = []

        def rec(text, path, dims, bus):
            if dims:
                for i in range(dims[0]): rec("%s[%d]" % (text, i), path, dims[1:], bus)
            elif bus:
                for f, d, tg, b in self.buses[bus]: rec(text + "." + f, path + (f,), d, b)
            else: leaves.append((text, path))
        rec("%s[%s]" % (x.text, q), x.path, x.dims[1:], x.bus)
        srcs = []
        for tx, path in leaves:
            s = self.src(t, ((), None)) or (self.leaf(t), lambda e: NONE)
            srcs.append((tx, path, s))
        st = "for (var %s = 0; %s < n; %s++) { %s }" % (q, q, q, " ".join("%s <== %s;" % (tx, s[0]) for tx, path, s in srcs))

        def fn(e):
            for _ in range(e["n"]):
                for tx, path, s in srcs: put(e, Ref(tx, x.wire, path, (), None, x.comp), s[1](e), 1)
            return st
        self.step(t, st, fn)

    def fresh(self, t, x, need):
        """a new wire with the tags"""
        r = self.r
        w = Wire("", self.name("w"), x.dims, need if r.random() < .97 else list(need)[:-1], x.bus)
        self.declare(t, w)
        if r.random() < .6:
            for s in [s for s in t.settable if s[0] is w]:
                if r.random() < .7: t.settable.remove(s); self.settag(t, s)
        s = None
        c = self.src(t, (x.dims, x.bus))
        self.assign(t, w)
        y = Ref(w.name, w, [], w.dims, w.bus)
        return y.text, lambda e: self.carried(e, y)

    # ------------------------------------------------------------ components
    def comp(self, t, s):
        r = self.r
        s.uses += 1
        c = self.name("c")
        n = r.choice([1, 2, 2, 3]) if t.name == "Main" or r.random() < .7 else "n"
        if n == "n": nt, nf = "n", lambda e: e["n"]
        else: nt, nf = str(n), lambda e: n
        kt, kf = self.value(t)
        wr = r.random()

        def create(e):
            e["comps"][c] = dict(t=s, n=nf(e), k=kf(e), ins={w.name: self.tree(w.tags, w.bus) for w in s.ins()}, left={w.name: prod(nf(e) if d == "n" else d for d in w.dims) * self.bsize(w.bus) for w in s.ins()}, outs=None)
            return "component %s = @%s@();" % (c, c)
        self.step(t, "component %s = %s(%s, %s);" % (c, s.name, nt, kt), create)

        def put(e, x, tags, cells):
            cc = e["comps"][c]
            # (x.wire is the input; its n is the component's)
            tr = cc["ins"][x.wire.name]
            for f in x.path: tr = tr["fields"][f]

            def check(tr, tags):
                for tg, v in tr["tags"].items():
                    if tg not in tags[0]: raise Illegal("tag %s missing at %s.%s" % (tg, c, x.wire.name))
                    if v is KeyError: tr["tags"][tg] = tags[0][tg]
                    elif v != tags[0][tg]: raise Illegal("tag %s with other values at %s.%s" % (tg, c, x.wire.name))
                for f, y in tr["fields"].items(): check(y, tags[1].get(f, NONE))
            check(tr, tags)
            cc["left"][x.wire.name] -= cells * self.bsize(x.bus)
            if not any(cc["left"].values()):
                for tr in cc["ins"].values(): nounset(tr)
                cc["outs"], cc["mono"] = e["prog"].run(s, cc["n"], cc["k"], cc["ins"])
        ins = s.ins()
        if r.random() < .4: r.shuffle(ins)
        for w in ins:
            # dims in terms of the parent
            d2 = tuple(n if d == "n" else d for d in w.dims)
            need = w.tags
            x = Ref("%s.%s" % (c, w.name), w, [], d2, w.bus, c)
            self.assign_ref(t, x, put, need, arrow=not need)
        for w in s.outs():
            d2 = tuple(n if d == "n" else d for d in w.dims)
            w2 = Wire("output", w.name, d2, w.tags, w.bus)
            t.have += self.refs(t, w2, c)
            for tg in w.tags: t.valued.append(self.tagread(w, (), tg, c))

    def read(self, t):
        r = self.r
        h = self.readable(t)
        if not h: return
        tx, fn = h
        a = self.refsof(t, ((), None)).text
        q = self.name("r")
        k = r.randrange(5)
        x = lambda f: [f(tx), lambda e: f("(%d)" % fn(e))]
        if k == 0: st = x(lambda v: "signal %s; %s <== %s + %s;" % (q, q, a, v))
        elif k == 1: st = x(lambda v: "var %s = %s * 2; signal %ss; %ss <== %s * %s;" % (q, v, q, q, q, a))
        elif k == 2: st = x(lambda v: "signal %s; if (%s == 5) { %s <== %s; } else { %s <== %s + 2; }" % (q, v, q, a, q, a))
        elif k == 3: st = x(lambda v: "signal %s; %s <== %s * (%s + 1);" % (q, q, a, v))
        else: st = x(lambda v: "var %s = 0; for (var i = 0; i < %s && i < 4; i++) { %s += i; } signal %ss; %ss <== %s + %s;" % (q, v, q, q, q, a, q))
        self.step(t, st[0], st[1])

    # ------------------------------------------------------------ faults
    def fault(self):
        """one statement that may be illegal, or a change; the model decides"""
        r = self.r
        t = r.choice(self.ts + [self.main])
        for _ in range(30):
            k = r.randrange(12)
            pos = lambda: r.randrange(len(t.wires), len(t.steps) + 1)
            ill = lambda why: (lambda e: self.raise_(Illegal(why)))
            if k == 0:
                c = [w for w in t.ins() if w.tags]
                if c: w = r.choice(c); t.steps.insert(pos(), ("step", lambda strip: "%s.%s = 1;" % (w.name, w.tags[0]), ill("tag of an input"))); return "set tag of an input"
            elif k == 1:
                w = r.choice([w for w in t.wires if w.kind != "" or True])
                tg = r.choice([x for x in TAGS if x not in w.tags])
                ms = r.choice(["var zz = %s.%s;", "%s.%s = 1;"]) % (w.name, tg)
                if w.name[0] in "ioz": t.steps.insert(pos(), ("step", lambda strip: ms, ill("undeclared tag"))); return "undeclared tag"
            elif k == 2:
                c = [w for w in t.wires if w.tags and w.dims and w.name[0] in "io"]
                if c:
                    w = r.choice(c); ms = r.choice(["var zz = %s[0].%s;", "%s[0].%s = 1;"]) % (w.name, w.tags[0])
                    t.steps.insert(pos(), ("step", lambda strip: ms, ill("tag of an element"))); return "tag of an element"
            elif k in (3, 4, 5):
                # set again, anywhere
                c = [w for w in t.wires if w.tags and w.kind != "input" and w.name[0] == "o"]
                if c:
                    w = r.choice(c)
                    n = len(t.steps); t.valued, t.sure = [], []; self.settag(t, (w, (), r.choice(w.tags)))
                    s = t.steps.pop()
                    t.steps.insert(r.choice([pos(), pos(), n]), s); return "set a tag anywhere"
            elif k == 6:
                c = [w for w in t.wires if w.tags and w.name[0] == "o"]
                if c:
                    w = r.choice(c)
                    ms = r.choice(["if (z == 1) { %s.%s = 2; }", "%s.%s = z;", "%s.%s = z + 1;"]) % (w.name, w.tags[0])
                    t.steps.insert(len(t.wires), ("step", lambda strip: ms, ill("unknown value or condition"))); return "tag from something unknown"
            elif k == 7 and len(t.steps) > len(t.wires) + 1:
                # two neighbours in the other order
                i = r.randrange(len(t.wires), len(t.steps) - 1)
                a, b = t.steps[i], t.steps[i + 1]
                ta, tb = a[1](False), b[1](False)
                if any(x.startswith(("component", "signal", "var", "bus")) or "() " in x.split("<")[0] for x in (ta, tb)): continue
                # (of which one sets a tag)
                if not any(" = " in x and not any(z in x for z in ("<==", "==>", "<--", "-->")) for x in (ta, tb)): continue
                t.steps[i], t.steps[i + 1] = b, a; return "two statements exchanged"
            elif k == 8:
                i = r.randrange(len(t.steps))
                s = t.steps[i][1](False)
                if s.startswith(("component", "signal", "var")) or "<==" in s or "==>" in s or "-" in s: continue
                if " = " in s and "." in s.split(" = ")[0] and "{" not in s: del t.steps[i]; return "statement removed"
            elif k == 9:
                # one more tag required by an input
                c = [w for w in t.ins() if t is not self.main]
                if c:
                    w = r.choice(c); tg = r.choice([x for x in TAGS if x not in w.tags])
                    if not w.bus: w.tags.append(tg); return "one more tag required"
            elif k == 10:
                c = [w for w in t.wires if w.tags and w.kind != "input"]
                if c:
                    w = r.choice(c); tg = r.choice(w.tags)
                    if not re.search(r"\b%s\.%s\b" % (w.name, tg), self.text()): w.tags.remove(tg); return "a tag less"
            elif k == 11 and t is self.main:
                w = r.choice(t.ins()); w.tags.append("ta")
                t.steps.append(("step", lambda strip: "", ill("main with tags"))); return "main with tags"
        return None

    @staticmethod
    def raise_(x): raise x

    # ------------------------------------------------------------ output
    def text(self):
        o = ["pragma circom 2.1.6;"]
        for b, fs in self.buses.items(): o.append("bus %s() { %s }" % (b, " ".join(Wire("", f, d, tg, x).text(False) for f, d, tg, x in fs)))
        for t in self.ts + [self.main]:
            o.append("template %s(%s) {" % (t.name, "" if t is self.main else "n, k"))
            o += ["  " + s[1](False) for s in t.steps]
            o.append("}")
        o.append("component main = Main();")
        return "\n".join(o) + "\n"

    def inputs(self, r):
        """random inputs of main"""
        def val(dims, bus):
            if dims: return [val(dims[1:], bus) for _ in range(dims[0])]
            if bus: return {f: val(list(d), b) for f, d, _, b in self.buses[bus]}
            return str(r.choice([0, 1, 2, self.p - 1, r.randrange(self.p)]))
        return {w.name: val(list(w.dims), w.bus) for w in self.main.ins()}

    def mono(self):
        """(text without tags, number of instances); raises Illegal or Unspec"""
        pr = Prog(self)
        _, nm = pr.run(self.main, 0, 0, None)
        o = ["pragma circom 2.1.6;"]
        for b, fs in self.buses.items(): o.append("bus %s() { %s }" % (b, " ".join(Wire("", f, d, (), x).text(True) for f, d, tg, x in fs)))
        return "\n".join(o + pr.out + ["component main = %s();" % nm]) + "\n", pr.inst


def nounset(tr):
    if any(v is KeyError for v in tr["tags"].values()): raise Unspec()
    for x in tr["fields"].values(): nounset(x)


class Prog:
    def __init__(self, g): self.g, self.inst, self.out = g, 0, []

    def run(self, t, n, k, ins):
        self.inst += 1
        nm = "M%d" % self.inst
        e = dict(n=n, k=k, main=ins is None, nodes={}, comps={}, prog=self)
        e["in"] = ins
        lines = []
        for _, tx, fn in t.steps: lines.append("  " + fn(e))
        text = "\n".join(lines)
        for c, cc in e["comps"].items():
            if cc["outs"] is None: raise Unspec()
            text = text.replace("@%s@" % c, cc["mono"])
        if not e["main"]: text = "  var n = %d; var k = %d;\n" % (n, k) + text
        self.out.append("template %s() {\n%s\n}" % (nm, text))

        def declared(n): return {t: v for t, v in n.carried()[0].items() if t in n.decl}, {f: declared(x) for f, x in n.fields.items()}
        return {w.name: declared(e["nodes"][w.name]) for w in t.outs()}, nm
