"""Reference semantics of circom written from its documentation: an AST, a pretty
printer and an interpreter that, for concrete inputs, computes every signal value,
the log output, and the exact set of constraints the source states.

AST (tuples).  Expressions:
 ('num', int[, text]) ('var', name, (acc,...)) acc=('i',expr)|('f',name)
 ('bin', op, a, b) ('un', op, a) ('tern', c, a, b) ('call', f, (args...))
 ('anon', tmpl, (params...), (inputs...), names|None, parallel)   ('arr', (e...)) ('paren', e) ('tup',(e...))
 ('inst', tmpl, (params...), parallel)
Statements:
 ('sig', kind, tags, name, dims, bus|None, init|None)   init=(op, expr)
 ('let', name, dims, init|None) ('comp', name, dims, init|None)
 ('set', op, lhs, rhs)  op in = += ... <== <-- ==> -->   ('ceq', a, b)
 ('if', c, then, els|None) ('while', c, body) ('for', init, c, step, body)
 ('ret', e) ('assert', e) ('log', items) ('block', stmts) ('inc', lhs, '++'|'--')
 ('tupset', [lhs...], op, rhs) ('expr', e)
"""
from .field import Field, DivZero

PREC = {"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, ">": 3, "<=": 3, ">=": 3, "|": 4, "^": 5, "&": 6, "<<": 7, ">>": 7,
        "+": 8, "-": 8, "*": 9, "/": 9, "\\": 9, "%": 9, "**": 10}


# --------------------------------------------------------------- printing
def pe(e, minimal=False, ctx=0, right=False):
    k = e[0]
    if k == "num":
        return e[2] if len(e) > 2 else str(e[1])
    if k == "var":
        s = e[1]
        for a in e[2]:
            s += "[" + pe(a[1], minimal) + "]" if a[0] == "i" else "." + a[1]
        return s
    if k == "bin":
        if minimal:
            p = PREC[e[1]]
            s = "%s %s %s" % (pe(e[2], True, p), e[1], pe(e[3], True, p + 1))
            return "(" + s + ")" if p < ctx else s
        return "(%s %s %s)" % (pe(e[2]), e[1], pe(e[3]))
    if k == "un":
        if minimal:
            s = e[1] + pe(e[2], True, 12 if e[2][0] == "un" else 11)
            return "(" + s + ")" if ctx > 11 else s
        return "(%s%s)" % (e[1], pe(e[2]))
    if k == "tern":
        return "(%s ? %s : %s)" % (pe(e[1], minimal, 1), pe(e[2], minimal, 1), pe(e[3], minimal, 1))
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(pe(a, minimal) for a in e[2]))
    if k == "inst":
        return ("parallel " if e[3] else "") + "%s(%s)" % (e[1], ", ".join(pe(a, minimal) for a in e[2]))
    if k == "anon":
        par = "parallel " if e[5] else ""
        if e[4]:
            ins = ", ".join("%s <== %s" % (n, pe(a, minimal)) for n, a in zip(e[4], e[3]))
        else:
            ins = ", ".join(pe(a, minimal) for a in e[3])
        return "%s%s(%s)(%s)" % (par, e[1], ", ".join(pe(a, minimal) for a in e[2]), ins)
    if k == "arr":
        return "[" + ", ".join(pe(a, minimal) for a in e[1]) + "]"
    if k == "tup":
        return "(" + ", ".join(pe(a, minimal) for a in e[1]) + ")"
    if k == "paren":
        return "(" + pe(e[1], minimal) + ")"
    raise KeyError(k)


def dims_s(d, m):
    return "".join("[%s]" % pe(x, m) for x in d)


def ps(s, ind=1, minimal=False):
    pad = "  " * ind
    k = s[0]
    E = lambda e: pe(e, minimal)
    if k == "sig":
        _, kind, tags, name, dims, bus, init = s
        head = "signal " + (kind + " " if kind else "") if bus is None else \
            "%s " % bus[0] + "(%s) " % ", ".join(E(x) for x in bus[1]) * (1 if bus[1] else 0) + (kind + " " if kind else "")
        if bus is not None:
            head = bus[0] + "(%s) " % ", ".join(E(x) for x in bus[1]) + (kind + " " if kind else "")
        if tags:
            head += "{%s} " % ", ".join(tags)
        r = head + name + dims_s(dims, minimal)
        if init:
            r += " %s %s" % (init[0], E(init[1]))
        return pad + r + ";\n"
    if k == "let":
        return pad + "var " + s[1] + dims_s(s[2], minimal) + (" = " + E(s[3]) if s[3] is not None else "") + ";\n"
    if k == "comp":
        return pad + "component " + s[1] + dims_s(s[2], minimal) + (" = " + E(s[3]) if s[3] is not None else "") + ";\n"
    if k == "set":
        return pad + "%s %s %s;\n" % (E(s[2]), s[1], E(s[3]))
    if k == "ceq":
        return pad + "%s === %s;\n" % (E(s[1]), E(s[2]))
    if k == "block":
        return pad + "{\n" + "".join(ps(x, ind + 1, minimal) for x in s[1]) + pad + "}\n"
    if k == "if":
        r = pad + "if (%s) {\n" % E(s[1]) + "".join(ps(x, ind + 1, minimal) for x in s[2]) + pad + "}"
        if s[3] is not None:
            r += " else {\n" + "".join(ps(x, ind + 1, minimal) for x in s[3]) + pad + "}"
        return r + "\n"
    if k == "while":
        return pad + "while (%s) {\n" % E(s[1]) + "".join(ps(x, ind + 1, minimal) for x in s[2]) + pad + "}\n"
    if k == "for":
        return pad + "for (%s; %s; %s) {\n" % (ps(s[1], 0, minimal).strip().rstrip(";"), E(s[2]),
                                               ps(s[3], 0, minimal).strip().rstrip(";")) + \
            "".join(ps(x, ind + 1, minimal) for x in s[4]) + pad + "}\n"
    if k == "ret":
        return pad + "return %s;\n" % E(s[1])
    if k == "assert":
        return pad + "assert(%s);\n" % E(s[1])
    if k == "log":
        return pad + "log(%s);\n" % ", ".join('"%s"' % x if isinstance(x, str) else E(x) for x in s[1])
    if k == "inc":
        return pad + E(s[1]) + s[2] + ";\n"
    if k == "tupset":
        return pad + "(%s) %s %s;\n" % (", ".join("_" if l is None else E(l) for l in s[1]), s[2], E(s[3]))
    if k == "expr":
        return pad + E(s[1]) + ";\n"
    raise KeyError(k)


class Template:
    def __init__(self, name, params, body, parallel=False, custom=False):
        self.name, self.params, self.body, self.parallel, self.custom = name, params, body, parallel, custom


class Prog:
    def __init__(self):
        self.funcs = {}      # name -> (params, body)
        self.templates = {}  # name -> Template
        self.buses = {}      # name -> (params, [('sig',...)...])
        self.public = []
        self.main = None     # (template, args)
        self.version = "2.1.6"
        self.custom = False
        self.order = []      # printing order of definitions

    def text(self, minimal=False, main=True):
        out = "pragma circom %s;\n" % self.version
        if self.custom:
            out += "pragma custom_templates;\n"
        for kind, n in self.order:
            out += self.def_text(kind, n, minimal)
        if main and self.main:
            pub = " {public [%s]}" % ", ".join(self.public) if self.public else ""
            out += "component main%s = %s(%s);\n" % (pub, self.main[0], ", ".join(pe(a) for a in self.main[1]))
        return out

    def def_text(self, kind, n, minimal=False):
        if kind == "f":
            ps_, body = self.funcs[n]
            return "function %s(%s) {\n%s}\n" % (n, ", ".join(ps_), "".join(ps(s, 1, minimal) for s in body))
        if kind == "b":
            ps_, body = self.buses[n]
            return "bus %s(%s) {\n%s}\n" % (n, ", ".join(ps_), "".join(ps(s, 1, minimal) for s in body))
        t = self.templates[n]
        q = (" custom" if t.custom else "") + (" parallel" if t.parallel else "")
        return "template%s %s(%s) {\n%s}\n" % (q, n, ", ".join(t.params), "".join(ps(s, 1, minimal) for s in t.body))

    def add_f(self, n, params, body): self.funcs[n] = (params, body); self.order.append(("f", n))
    def add_t(self, t): self.templates[t.name] = t; self.order.append(("t", t.name))
    def add_b(self, n, params, body): self.buses[n] = (params, body); self.order.append(("b", n))


# ----------------------------------------------------------- interpretation
class RunFail(Exception):
    """witness computation must be refused: kind 'assert' or 'constraint'"""
    def __init__(self, kind, what=""):
        self.kind = kind
        super().__init__("%s %s" % (kind, what))


class Invalid(Exception):
    """the program breaks a static rule (the compiler has to reject it)"""


class Skip(Exception):
    """outside the modelled subset"""


NONQ = ("n",)


def s_num(v): return ("c", v)


def s_sig(p): return ("l", {p: 1})


def lin_of(s):
    return {"": s[1]} if s[0] == "c" else s[1]


def lin_add(a, b, p, k=1):
    r = dict(a)
    for x, v in b.items():
        w = (r.get(x, 0) + k * v) % p
        if w: r[x] = w
        else: r.pop(x, None)
    return r


def lin_scale(a, k, p):
    return {x: v * k % p for x, v in a.items() if v * k % p}


class V:
    __slots__ = ("c", "s")

    def __init__(self, c, s):
        self.c, self.s = c, s

    def __repr__(self): return "V(%r,%s)" % (self.c, self.s[0])


def K(v): return V(v, ("c", v))


class Inst:
    pass


class Interp:
    def __init__(self, prog, field, max_steps=400000):
        self.prog, self.F = prog, field
        self.vals = {}        # path -> int
        self.order = []       # signal paths in creation order per instance
        self.cons = []        # polynomials {(): , (a,), (a,b)}: coeff
        self.raw_cons = []
        self.logs = []
        self.loose_logs = False
        self.asserts = 0
        self.cons_checked = 0
        self.steps, self.max_steps = 0, max_steps
        self.insts = []
        self.unknown = 0
        self.in_const = 0
        self.anon = 0
        self.zero_div = False
        self.check_asserts = self.check_constraints = True
        self.gates = []

    # ---- symbolic algebra (quadratic forms A*B+C)
    def s_bin(self, op, a, b):
        p = self.F.p
        if a[0] == "n" or b[0] == "n":
            return NONQ
        if a[0] == "c" and b[0] == "c":
            return ("c", self.F.bin(op, a[1], b[1]))
        if op in "+-":
            k = 1 if op == "+" else p - 1
            if a[0] == "q" and b[0] == "q":
                return NONQ
            if b[0] == "q":
                return ("q", lin_scale(b[1], k, p), b[2], lin_add(lin_scale(b[3], k, p), lin_of(a), p))
            if a[0] == "q":
                return ("q", a[1], a[2], lin_add(a[3], lin_of(b), p, k))
            return ("l", lin_add(lin_of(a), lin_of(b), p, k))
        if op == "*":
            if a[0] == "c" or b[0] == "c":
                k, x = (a[1], b) if a[0] == "c" else (b[1], a)
                if x[0] == "l":
                    return ("l", lin_scale(x[1], k, p))
                return ("q", lin_scale(x[1], k, p), x[2], lin_scale(x[3], k, p))
            if a[0] == "l" and b[0] == "l":
                return ("q", a[1], b[1], {})
            return NONQ
        if op == "/" and b[0] == "c":
            return self.s_bin("*", a, ("c", self.F.inv(b[1])))
        if op == "**" and b == ("c", 2) and a[0] == "l":
            return ("q", a[1], a[1], {})
        return NONQ

    def poly(self, s):
        p = self.F.p
        r = {}

        def add(k, v):
            v = (r.get(k, 0) + v) % p
            if v: r[k] = v
            else: r.pop(k, None)
        key = lambda *xs: tuple(sorted(x for x in xs if x != ""))
        if s[0] in "cl":
            for x, v in lin_of(s).items():
                add(key(x), v)
        else:
            for x, v in s[1].items():
                for y, w in s[2].items():
                    add(key(x, y), v * w)
            for x, v in s[3].items():
                add(key(x), v)
        return r

    # ---- expressions
    def deep(self, f, x):
        if isinstance(x, list): return [self.deep(f, y) for y in x]
        if isinstance(x, dict): return {k: self.deep(f, v) for k, v in x.items()}
        return f(x)

    def read_sig(self, node):
        def g(path):
            if path not in self.vals:
                raise Invalid("read of unassigned signal " + path)
            return V(self.vals[path], s_sig(path))
        return self.deep(g, node)

    def lookup(self, env, name):
        for fr in reversed(env):
            if name in fr:
                return fr
        raise Invalid("undeclared " + name)

    def idx(self, env, e, n):
        v = self.ev(env, e)
        if v.c >= n:
            raise Skip("index out of range")
        return v

    def resolve(self, env, e):
        """var expression -> ('sig', node) | ('var', value, unknown_index) | ('comp', inst...)"""
        fr = self.lookup(env, e[1])
        kind, obj = fr[e[1]][0], fr[e[1]][1]
        unk = False
        inst = None
        for a in e[2]:
            if kind == "comp" and isinstance(obj, Inst):
                if a[0] != "f": raise Invalid("index on component")
                inst = obj
                if a[1] not in obj.sigs:
                    raise Invalid("no signal %s" % a[1])
                kind, obj = "sig", obj.sigs[a[1]]
                continue
            if a[0] == "f":
                if isinstance(obj, dict):
                    if a[1] not in obj: raise Invalid("no field")
                    obj = obj[a[1]]
                    continue
                if kind in ("sig",) and e[1] in fr and len(fr[e[1]]) > 2:
                    # tag access
                    tg = fr[e[1]][2].get(a[1])
                    if tg is None: raise Invalid("tag without value")
                    return ("var", K(tg), False, None)
                raise Invalid("field access")
            if not isinstance(obj, list):
                raise Invalid("index on scalar")
            v = self.idx(env, a[1], len(obj))
            if v.s[0] != "c": unk = True
            obj = obj[v.c]
        return (kind, obj, unk, inst)

    def ev(self, env, e):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Skip("too many steps")
        k = e[0]
        if k == "num":
            return K(e[1] % self.F.p)
        if k == "var":
            kind, obj, unk, inst = self.resolve(env, e)
            if kind == "sig":
                v = self.read_sig(obj)
            elif kind == "var":
                v = obj
            else:
                raise Invalid("component as value")
            if unk:
                v = self.deep(lambda x: V(x.c, NONQ), v)
            return v
        if k == "paren":
            return self.ev(env, e[1])
        if k == "bin":
            a, b = self.ev(env, e[2]), self.ev(env, e[3])
            if not isinstance(a, V) or not isinstance(b, V):
                raise Invalid("array operand")
            try:
                return V(self.F.bin(e[1], a.c, b.c), self.s_bin(e[1], a.s, b.s))
            except DivZero:
                raise Skip("division by zero")
        if k == "un":
            a = self.ev(env, e[2])
            if not isinstance(a, V): raise Invalid("array operand")
            if e[1] == "-":
                return V(self.F.un("-", a.c), self.s_bin("*", ("c", self.F.p - 1), a.s))
            c = self.F.un(e[1], a.c)
            return V(c, ("c", c) if a.s[0] == "c" else NONQ)
        if k == "tern":
            c = self.ev(env, e[1])
            if c.s[0] == "c":
                return self.ev(env, e[2] if c.c else e[3])
            v = self.ev(env, e[2] if c.c else e[3])
            return self.deep(lambda x: V(x.c, NONQ), v)
        if k == "arr":
            return [self.ev(env, x) for x in e[1]]
        if k == "call":
            args = [self.ev(env, a) for a in e[2]]
            return self.call(e[1], args)
        if k == "anon":
            outs = self.run_anon(env, e)
            if len(outs) != 1: raise Invalid("tuple as value")
            return outs[0]
        raise Skip(k)

    def call(self, f, args):
        params, body = self.prog.funcs[f]
        cp = lambda v: self.deep(lambda x: x, v)
        env = [{n: ["var", cp(a)] for n, a in zip(params, args)}]
        self.depth = getattr(self, "depth", 0) + 1
        if self.depth > 60: raise Skip("recursion")
        save, self.unknown = self.unknown, self.unknown
        r = self.block(env, body, None)
        self.unknown = save
        self.depth -= 1
        if r is None:
            raise Skip("no return")
        return r[0]

    # ---- components
    def instantiate(self, name, params, path, known_inputs=None):
        t = self.prog.templates[name]
        i = Inst()
        i.t, i.path, i.params = t, path, params
        i.sigs, i.kinds, i.pending, i.ran = {}, {}, 0, False
        i.env = [{n: ["var", v] for n, v in zip(t.params, params)}]
        i.subs = []
        i.sig_order = []
        i.num = len(self.insts)
        self.insts.append(i)
        # declare the interface: input/output declarations sit at the top level of
        # the body; evaluate parameters-only declarations
        env = i.env
        for s in t.body:
            if s[0] == "sig" and s[1] == "input":
                node = self.make_sig(i, env, s)
                i.pending += self.size(node)
        if i.pending == 0:
            # components without inputs run when their parent starts: the position of
            # what they log relative to the parent's own lines is not defined
            n = len(self.logs)
            self.run_inst(i)
            if len(self.logs) > n: self.loose_logs = True
        return i

    def size(self, node):
        if isinstance(node, list): return sum(self.size(x) for x in node)
        if isinstance(node, dict): return sum(self.size(x) for x in node.values())
        return 1

    def bus_node(self, bus, params, path):
        bp, body = self.prog.buses[bus]
        env = [{n: ["var", v] for n, v in zip(bp, params)}]
        r = {}
        for s in body:
            dims = [self.ev(env, d).c for d in s[4]]
            r[s[3]] = self.shape(dims, path + "." + s[3], s[5] and (s[5][0], [self.ev(env, x) for x in s[5][1]]))
        return r

    def shape(self, dims, path, bus):
        if dims:
            return [self.shape(dims[1:], "%s[%d]" % (path, k), bus) for k in range(dims[0])]
        if bus:
            return self.bus_node(bus[0], bus[1], path)
        return path

    def make_sig(self, inst, env, s):
        _, kind, tags, name, dims, bus, init = s
        d = [self.ev(env, x).c for x in dims]
        b = bus and (bus[0], [self.ev(env, x) for x in bus[1]])
        node = self.shape(d, inst.path + "." + name, b)
        inst.sigs[name] = node
        inst.kinds[name] = kind
        inst.sig_order.append(name)
        return node

    def run_inst(self, i):
        i.ran = True
        env = i.env + [{}]
        self.cur, save = i, getattr(self, "cur", None)
        su, self.unknown = self.unknown, 0
        self.block(env, i.t.body, i, push=False)
        self.unknown = su
        self.cur = save

    def set_sig(self, node, val, inst):
        """assign value structure to a signal node; inst = owner if a subcomponent input"""
        if isinstance(node, list):
            if not isinstance(val, list) or len(val) != len(node): raise Invalid("dimension mismatch")
            for a, b in zip(node, val): self.set_sig(a, b, inst)
        elif isinstance(node, dict):
            if not isinstance(val, dict): raise Invalid("bus mismatch")
            for k in node: self.set_sig(node[k], val[k], inst)
        else:
            if not isinstance(val, V): raise Invalid("dimension mismatch")
            if node in self.vals: raise Invalid("assigned twice " + node)
            self.vals[node] = val.c
            if inst is not None:
                inst.pending -= 1

    def constrain(self, l, r):
        if isinstance(l, list):
            if not isinstance(r, list) or len(l) != len(r): raise Invalid("dimension mismatch")
            for a, b in zip(l, r): self.constrain(a, b)
            return
        if isinstance(l, dict):
            for k in l: self.constrain(l[k], r[k])
            return
        if not isinstance(r, V): raise Invalid("dimension mismatch")
        if self.unknown: raise Invalid("constraint under unknown condition")
        s = self.s_bin("-", l.s, r.s)
        if s[0] == "n": raise Invalid("non quadratic constraint")
        self.cons.append(self.poly(s))
        self.raw_cons.append(s)
        self.cons_checked += 1
        if l.c != r.c and self.check_constraints:
            raise RunFail("constraint")

    def run_anon(self, env, e):
        _, t, params, ins, names, par = e
        self.anon += 1
        pv = [self.ev(env, x) for x in params]
        iv = [self.ev(env, x) for x in ins]
        inst = self.instantiate(t, pv, "%s.#%d" % (self.cur.path, self.anon))
        self.cur.subs.append(inst)
        inputs = [n for n in inst.sig_order if inst.kinds[n] == "input"]
        for n, v in zip(names or inputs, iv):
            self.assign_signal(inst.sigs[n], v, inst, True)
        if not inst.ran: raise Invalid("missing input")
        return [self.read_sig(inst.sigs[n]) for n in inst.sig_order if inst.kinds[n] == "output"]

    def assign_signal(self, node, v, inst, constrained):
        self.set_sig(node, v, inst)
        if constrained:
            self.constrain(self.read_sig(node), v)
        if inst is not None and inst.pending == 0 and not inst.ran:
            self.run_inst(inst)

    # ---- statements
    def block(self, env, stmts, inst, push=True):
        if push:
            env = env + [{}]
        for s in stmts:
            r = self.st(env, s, inst)
            if r is not None:
                return r
        return None

    def default(self, dims):
        if not dims: return K(0)
        return [self.default(dims[1:]) for _ in range(dims[0])]

    def assigned(self, stmts, acc):
        for s in stmts or ():
            if s is None: continue
            if s[0] == "set" and s[2][0] == "var": acc.add(s[2][1])
            elif s[0] == "inc": acc.add(s[1][1])
            elif s[0] == "if": self.assigned(s[2], acc); self.assigned(s[3], acc)
            elif s[0] == "while": self.assigned(s[2], acc)
            elif s[0] == "for": self.assigned([s[1], s[3]], acc); self.assigned(s[4], acc)
            elif s[0] == "block": self.assigned(s[1], acc)
        return acc

    def blur(self, env, names):
        for n in names:
            for fr in reversed(env):
                if n in fr:
                    if fr[n][0] == "var":
                        fr[n][1] = self.deep(lambda x: V(x.c, NONQ), fr[n][1])
                    break

    def st(self, env, s, inst):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Skip("too many steps")
        k = s[0]
        if k == "sig":
            if s[1] == "input":
                env[-1][s[3]] = ["sig", inst.sigs[s[3]]]
                return
            node = self.make_sig(inst, env, s)
            env[-1][s[3]] = ["sig", node]
            if s[6]:
                self.st(env, ("set", s[6][0], ("var", s[3], ()), s[6][1]), inst)
            return
        if k == "let":
            if s[3] is not None:
                v = self.ev(env, s[3])
                v = self.deep(lambda x: x, v)
                if s[2]:
                    v = self.pad(self.default([self.ev(env, d).c for d in s[2]]), v)
            else:
                v = self.default([self.ev(env, d).c for d in s[2]])
            env[-1][s[1]] = ["var", v]
            return
        if k == "comp":
            dims = [self.ev(env, d).c for d in s[2]]
            def mk(ds): return [mk(ds[1:]) for _ in range(ds[0])] if ds else None
            env[-1][s[1]] = ["comp", mk(dims)]
            if s[3] is not None:
                self.st(env, ("set", "=", ("var", s[1], ()), s[3]), inst)
            return
        if k == "set":
            return self.do_set(env, s, inst)
        if k == "inc":
            return self.do_set(env, ("set", "+=" if s[2] == "++" else "-=", s[1], ("num", 1)), inst)
        if k == "ceq":
            self.constrain(self.ev(env, s[1]), self.ev(env, s[2]))
            return
        if k == "block":
            return self.block(env, s[1], inst)
        if k == "if":
            c = self.ev(env, s[1])
            br = s[2] if c.c else s[3]
            if c.s[0] == "c":
                return self.block(env, br, inst) if br is not None else None
            self.unknown += 1
            r = self.block(env, br, inst) if br is not None else None
            self.unknown -= 1
            self.blur(env, self.assigned(s[2], self.assigned(s[3], set())))
            if r is not None:
                r = [self.deep(lambda x: V(x.c, NONQ), r[0])]
            return r
        if k in ("while", "for"):
            if k == "for":
                env = env + [{}]
                self.st(env, s[1], inst)
                cond, body = s[2], s[4]
            else:
                cond, body = s[1], s[2]
            unk = False
            while True:
                c = self.ev(env, cond)
                if c.s[0] != "c" and not unk:
                    unk = True
                    self.unknown += 1
                if not c.c:
                    break
                r = self.block(env, body, inst)
                if r is not None:
                    if unk:
                        self.unknown -= 1
                        r = [self.deep(lambda x: V(x.c, NONQ), r[0])]
                    return r
                if k == "for":
                    self.st(env, s[3], inst)
            if unk:
                self.unknown -= 1
                self.blur(env, self.assigned(body, self.assigned([s[3]] if k == "for" else [], set())))
            return
        if k == "ret":
            return [self.ev(env, s[1])]
        if k == "assert":
            v = self.ev(env, s[1])
            self.asserts += 1
            if not v.c and self.check_asserts:
                raise RunFail("assert")
            return
        if k == "log":
            self.logs.append([x if isinstance(x, str) else self.ev(env, x).c for x in s[1]])
            return
        if k == "tupset":
            outs = self.run_anon(env, s[3]) if s[3][0] == "anon" else [self.ev(env, x) for x in s[3][1]]
            for l, v in zip(s[1], outs):
                if l is None:
                    continue
                self.assign_to(env, s[2], l, v, inst)
            return
        raise Skip(k)

    def pad(self, shape, v):
        if isinstance(shape, list):
            if not isinstance(v, list): raise Skip("array shape")
            if len(v) != len(shape): raise Skip("array shape")
            return [self.pad(a, b) for a, b in zip(shape, v)]
        return v

    def do_set(self, env, s, inst):
        _, op, lhs, rhs = s
        if op in ("==>", "-->"):
            op, lhs, rhs = ("<==" if op == "==>" else "<--"), rhs, lhs
        if rhs[0] == "inst":
            fr = self.lookup(env, lhs[1])
            path = inst.path + "." + lhs[1]
            pv = [self.ev(env, x) for x in rhs[2]]
            idx = [self.ev(env, a[1]).c for a in lhs[2]]
            for n in idx: path += "[%d]" % n
            o = self.instantiate(rhs[1], pv, path)
            inst.subs.append(o)
            if not idx:
                fr[lhs[1]][1] = o
            else:
                t = fr[lhs[1]][1]
                for n in idx[:-1]: t = t[n]
                if t[idx[-1]] is not None: raise Invalid("component set twice")
                t[idx[-1]] = o
            return
        if op not in ("=", "<==", "<--"):
            cur = self.ev(env, lhs)
            r = self.ev(env, rhs)
            bop = op[:-1]
            try:
                v = V(self.F.bin(bop, cur.c, r.c), self.s_bin(bop, cur.s, r.s))
            except DivZero:
                raise Skip("division by zero")
            return self.assign_to(env, "=", lhs, v, inst)
        if rhs[0] == "anon":
            outs = self.run_anon(env, rhs)
            if len(outs) != 1: raise Invalid("tuple")
            return self.assign_to(env, op, lhs, outs[0], inst)
        v = self.ev(env, rhs)
        return self.assign_to(env, op, lhs, v, inst)

    def assign_to(self, env, op, lhs, v, inst):
        if op == "=":
            fr = self.lookup(env, lhs[1])
            if fr[lhs[1]][0] != "var": raise Invalid("= on signal")
            v = self.deep(lambda x: x, v)
            if not lhs[2]:
                if isinstance(fr[lhs[1]][1], list): v = self.pad(fr[lhs[1]][1], v)
                fr[lhs[1]][1] = v
                return
            o = fr[lhs[1]][1]
            ks = []
            unk = False
            for a in lhs[2]:
                if not isinstance(o, list): raise Invalid("index on scalar")
                i = self.idx(env, a[1], len(o))
                unk |= i.s[0] != "c"
                ks.append(i.c)
                o = o[i.c]
            if isinstance(o, list): v = self.pad(o, v)
            t = fr[lhs[1]][1]
            for n in ks[:-1]: t = t[n]
            t[ks[-1]] = v
            if unk:
                self.blur(env, [lhs[1]])
            return
        kind, node, unk, owner = self.resolve(env, lhs)
        if kind != "sig": raise Invalid("%s on non signal" % op)
        if unk: raise Invalid("unknown index in signal assignment")
        if self.unknown and op == "<==": raise Invalid("constraint under unknown condition")
        self.assign_signal(node, v, owner, op == "<==")

    # ---- whole program
    def run(self, inputs):
        t, args = self.prog.main
        env0 = [{}]
        pv = [self.ev(env0, a) for a in args]
        self.cur = None
        i = Inst()
        self.main = self._main(t, pv, inputs)
        return self

    def _main(self, tname, pv, inputs):
        t = self.prog.templates[tname]
        i = Inst()
        i.t, i.path, i.params = t, "main", pv
        i.sigs, i.kinds, i.pending, i.ran = {}, {}, 0, False
        i.env = [{n: ["var", v] for n, v in zip(t.params, pv)}]
        i.subs, i.sig_order, i.num = [], [], 0
        self.insts.append(i)
        for s in t.body:
            if s[0] == "sig" and s[1] == "input":
                node = self.make_sig(i, i.env, s)
                self.set_input(node, inputs[s[3]])
        self.main = i
        self.run_inst(i)
        return i

    def set_input(self, node, v):
        if isinstance(node, list):
            for a, b in zip(node, v): self.set_input(a, b)
        elif isinstance(node, dict):
            for k in node: self.set_input(node[k], v[k])
        else:
            self.vals[node] = v % self.F.p

    def input_shape(self):
        """name -> shape of main's inputs (list / dict / leaf None)"""
        t, args = self.prog.main
        pv = [self.ev([{}], a) for a in args]
        i = Inst()
        i.path, i.sigs, i.kinds, i.sig_order = "main", {}, {}, []
        tt = self.prog.templates[t]
        env = [{n: ["var", v] for n, v in zip(tt.params, pv)}]
        r = {}
        for s in tt.body:
            if s[0] == "sig" and s[1] == "input":
                r[s[3]] = self.deep(lambda x: None, self.make_sig(i, env, s))
        return r

    # flattened signal order of an instance as in the label numbering
    def flat(self, node):
        if isinstance(node, list):
            for x in node: yield from self.flat(x)
        elif isinstance(node, dict):
            for k in node: yield from self.flat(node[k])
        else:
            yield node
