"""Rewriting a program into another one that must mean the same."""
import copy
from .lang import Template, Prog, ps, pe
from .layout import tokens, relayout, STYLES


def walk(x, f):
    """bottom-up copy of an AST with f applied to every tuple (a statement may become a list of statements)"""
    if isinstance(x, tuple): return f(tuple(walk(y, f) for y in x))
    if isinstance(x, list):
        o = []
        for y in x:
            z = walk(y, f)
            if isinstance(z, list) and isinstance(y, tuple): o += z
            else: o.append(z)
        return o
    return x


def declared(body, kinds):
    out = set()
    def f(t):
        if t and t[0] in kinds and isinstance(t[0], str): out.add(t[3] if t[0] == "sig" else t[1])
        return t
    walk(body, f)
    return out


VARS = ["x", "y", "n", "m", "i", "j", "k", "acc", "tmp", "_a", "__a", "$v", "v$1", "A", "Zz", "aVeryLongNameForAVariableThatIsUsedHere", "x0", "x00", "out", "in", "ret", "r1", "lvar", "pc", "expr", "main_", "size", "template_", "var_", "if_", "signals", "o_O", "component1", "aux", "fr", "ctx"]
TPLS = ["A", "B", "Main", "Zed", "a", "_T", "$T", "T$", "Template", "Component", "Num2Bits", "main_", "Circuit", "LongTemplateNameLongTemplateNameLongTemplateName", "x", "T_1_2", "run", "create", "Fr", "get"]
FUNS = ["f", "g", "sum", "F", "_f", "$f", "f$", "fact", "max_", "call", "init", "functionWithAVeryLongNameFunctionWithAVeryLongName", "log2", "copy", "Fr_add", "release", "f_1", "mainf"]

UNUSED = ["template %s() { signal input a; signal output b; b <== a * a; }", "template %s(n) { signal input a[n]; signal output b; b <== a[0]; var s = 0; for (var i = 0; i < n; i++) { s += a[i] * a[i]; } s === 4; }", "function %s(a) { return a + 1; }", "function %s(a, b) { if (a == b) { return 1; } else { return %s(a - 1, b); } }", "bus %s(n) { signal x[n]; signal {t} y; }", "template %s(n) { assert(n == 3); signal input x; x === n; }", "bus %s() { signal x; }", "template parallel %s(k) { signal output o; o <-- k; o === 1; log(k); }"]


class Rewriter:
    def __init__(self, r, prog, kinds=None):
        self.r, self.p = r, copy.deepcopy(prog)
        # new names of templates -> old ones
        self.tmap, self.done, self.n = {t: t for t in prog.templates}, [], 0
        self.kinds = kinds

    def bodies(self, fn):
        """fn(params, body) -> (params, body) on every definition"""
        p = self.p
        for n, (a, b) in list(p.funcs.items()): p.funcs[n] = fn(list(a), b)
        for n, (a, b) in list(p.buses.items()): p.buses[n] = fn(list(a), b)
        for t in p.templates.values(): t.params, t.body = fn(list(t.params), t.body)

    # ------------------------------------------------------------ renaming
    def variables(self):
        r = self.r
        def fn(params, body):
            fixed = declared(body, ("sig", "comp"))
            mine = sorted((declared(body, ("let",)) | set(params)) - fixed)
            pool = [v for v in VARS if v not in fixed]
            r.shuffle(pool)
            pool = pool[:len(mine)] + ["w%d" % i for i in range(max(0, len(mine) - len(pool)))]
            if r.random() < .3: pool = r.sample(mine, len(mine))
            m = {v: q for v, q in zip(mine, pool) if r.random() < .9}
            # (names kept must not be taken)
            kept = {v for v in mine if v not in m}
            m = {v: q for v, q in m.items()}
            while set(m.values()) & kept:
                for v in [v for v in m if m[v] in kept]: kept.add(v); del m[v]
            def f(t):
                if t and t[0] == "var" and t[1] in m: return ("var", m[t[1]], t[2])
                if t and t[0] == "let" and t[1] in m: return ("let", m[t[1]]) + t[2:]
                return t
            return [m.get(q, q) for q in params], walk(body, f)
        self.bodies(fn)

    def globals_(self):
        r, p = self.r, self.p
        old = sorted(p.templates) + sorted(p.funcs) + sorted(p.buses)
        used = set()
        self.bodies(lambda a, b: (used.update(declared(b, ("sig", "comp", "let")), a), (a, b))[1])
        if r.random() < .3:
            # exchange among themselves
            m = {}
            for d in (p.templates, p.funcs, p.buses):
                k = sorted(d); m.update(zip(k, r.sample(k, len(k))))
        else:
            m, taken = {}, set(old) | used
            for d, pool in ((p.templates, TPLS), (p.funcs, FUNS), (p.buses, TPLS)):
                for k in sorted(d):
                    c = [q for q in pool if q not in taken]
                    if c and r.random() < .85: m[k] = r.choice(c); taken.add(m[k])
                    else: m[k] = k
        def f(t):
            if not t or not isinstance(t[0], str): return t
            if t[0] in ("inst", "anon", "call"): return (t[0], m.get(t[1], t[1])) + t[2:]
            if t[0] == "sig" and t[5]: return t[:5] + ((m[t[5][0]],) + tuple(t[5][1:]),) + t[6:]
            return t
        self.bodies(lambda a, b: (a, walk(b, f)))
        p.funcs = {m[k]: v for k, v in p.funcs.items()}
        p.buses = {m[k]: v for k, v in p.buses.items()}
        for t in p.templates.values(): t.name = m[t.name]
        p.templates = {t.name: t for t in p.templates.values()}
        p.order = [(k, m[n]) for k, n in p.order]
        p.main = (m[p.main[0]], p.main[1])
        self.tmap = {m[k]: v for k, v in self.tmap.items()}

    # ------------------------------------------------------------ statements
    def sugar(self):
        """abbreviations written out, or used"""
        r = self.r
        pr = r.choice([.3, .7, 1])
        def f(t):
            if not t or not isinstance(t[0], str) or r.random() > pr: return t
            k = t[0]
            if k == "inc": return r.choice([("set", t[2][0] + "=", t[1], ("num", 1)), ("set", "=", t[1], ("bin", t[2][0], t[1], ("num", 1)))])
            if k == "set" and t[1] in ("==>", "-->"): return ("set", {"==>": "<==", "-->": "<--"}[t[1]], t[3], t[2])
            if k == "set" and t[1] in ("<==", "<--") and t[3][0] in ("var", "bin", "num", "un"): return ("set", {"<==": "==>", "<--": "-->"}[t[1]], t[3], t[2])
            if k == "set" and len(t[1]) > 1 and t[1].endswith("=") and t[1] not in ("<==",): return ("set", "=", t[2], ("bin", t[1][:-1], t[2], t[3]))
            if k == "let" and t[3] is not None and r.random() < .5: return [t[:3] + (None,), ("set", "=", ("var", t[1], ()), t[3])]
            if k == "sig" and t[6] and t[6][1][0] != "anon": return [t[:6] + (None,), ("set", t[6][0], ("var", t[3], ()), t[6][1])]
            if k == "comp" and t[3] is not None and not t[2]: return [t[:3] + (None,), ("set", "=", ("var", t[1], ()), t[3])]
            return t
        # (initialisations in the head of a loop stay)
        def g(t):
            if t and t[0] == "for":
                i, s = t[1], t[3]
                i = i[0] if isinstance(i, list) and len(i) == 1 else i
                if isinstance(i, list): return ("block", [i[0], ("for", i[1], t[2], s, t[4])])
                return ("for", i, t[2], s, t[4])
            return t
        self.bodies(lambda a, b: (a, walk(b, lambda t: g(f(t)))))

    def loops(self):
        r = self.r
        def f(t):
            if t and t[0] == "for" and r.random() < .6: return ("block", [t[1], ("while", t[2], [("block", list(t[4])), t[3]])])
            return t
        self.bodies(lambda a, b: (a, walk(b, f)))

    def braces(self):
        r = self.r
        def f(t):
            if t and t[0] in ("set", "ceq", "assert", "log", "if", "while", "for", "tupset", "inc", "ret") and isinstance(t[0], str) and r.random() < .3: return ("block", [t])
            return t
        def g(t):
            t2 = f(t)
            # heads of loops take no block
            if t2 and t2[0] == "for":
                un = lambda s: s[1][0] if s[0] == "block" else s
                return t2[:1] + (un(t2[1]), t2[2], un(t2[3]), t2[4])
            if t2 and t2[0] == "block" and len(t2[1]) == 1 and t2[1][0][0] == "for":
                return ("block", [g_head(t2[1][0])])
            return t2
        def g_head(t):
            un = lambda s: s[1][0] if s[0] == "block" else s
            return t[:1] + (un(t[1]), t[2], un(t[3]), t[4])
        self.bodies(lambda a, b: (a, walk(b, g)))

    def parens(self):
        r = self.r
        w = lambda e: ("paren", e) if e[0] in ("num", "bin", "un", "var") and r.random() < .3 else e
        def f(t):
            if t and t[0] == "bin" and isinstance(t[1], str): return ("bin", t[1], w(t[2]), w(t[3]))
            return t
        self.bodies(lambda a, b: (a, walk(b, f)))

    def unused_vars(self):
        r = self.r
        def fn(a, b):
            b = list(b)
            if any(s[0] == "sig" and s[5] is None for s in b) or any(s[0] == "ret" for s in b):
                for _ in range(r.choice([0, 1, 2])):
                    self.n += 1
                    v = "unused%d" % self.n
                    s = r.choice([[("let", v, (), None)], [("let", v, (("num", 3),), None)], [("let", v, (), ("num", 4)), ("set", "+=", ("var", v, ()), ("num", 3))], [("block", [("let", v, (), ("num", 1))])]])
                    i = r.randrange(len(b))
                    b[i:i] = s
            return a, b
        p = self.p
        for n, (a, b) in list(p.funcs.items()): p.funcs[n] = fn(a, b)
        for t in p.templates.values(): t.params, t.body = fn(t.params, t.body)

    # ------------------------------------------------------------ files
    def render(self):
        """(files {path: text}, path of the main one)"""
        r, p = self.r, self.p
        ks = self.kinds or [k for k in ("variables", "globals_", "sugar", "loops", "braces", "parens", "unused_vars") if r.random() < .4]
        for k in ks: getattr(self, k)(); self.done.append(k)
        defs = [(p.def_text(k, n, r.random() < .5)) for k, n in p.order]
        if r.random() < .4:
            self.done.append("unused definitions")
            for i in range(r.choice([1, 2, 4])):
                t = r.choice(UNUSED); defs.append(t.replace("%s", "Unused%d_" % i) + "\n")
        if r.random() < .6: r.shuffle(defs); self.done.append("reordered")
        head = "pragma circom %s;\n" % p.version
        pub = " {public [%s]}" % ", ".join(p.public) if p.public else ""
        main = "component main%s = %s(%s);\n" % (pub, p.main[0], ", ".join(pe(a) for a in p.main[1]))
        files = {}
        if r.random() < .35:
            self.done.append("split")
            n = r.choice([1, 2, 3])
            names = ["%s%s.circom" % (r.choice(["", "", "lib/", "lib/deep/"]), "f%d" % i) for i in range(n)]
            parts = [[] for _ in range(n + 1)]
            for d in defs: parts[r.randrange(n + 1)].append(d)
            up = lambda a, b: "../" * a.count("/") + b
            style = r.choice(["star", "chain", "mixed"])
            for i, nm in enumerate(names):
                inc = []
                if style == "chain" and i + 1 < n: inc = [names[i + 1]]
                elif style == "mixed": inc = [x for x in names[i + 1:] if r.random() < .5] + ([names[0]] if r.random() < .2 else [])
                files[nm] = head + "".join('include "%s";\n' % up(nm, x) for x in inc) + "".join(parts[i])
            inc = names[:1] if style == "chain" else list(names)
            r.shuffle(inc)
            if r.random() < .3: inc += inc[:1]
            files["m.circom"] = head + "".join('include "%s";\n' % x for x in inc) + "".join(parts[n]) + main
        else:
            body = head + "".join(defs) + main
            files["m.circom"] = body
        if r.random() < .6:
            self.done.append("layout")
            st = r.choice(STYLES)
            files = {k: relayout(r, tokens(v), st) for k, v in files.items()}
        return files, "m.circom"
