"""Hostile source texts: token-, line- and byte-level mutations of valid programs, splices of
two programs, grammar-based nonsense, and fixed nasty shapes."""
import random, re

TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"[^"\n]*"|0x[0-9a-fA-F]+|\d+|[A-Za-z_$][A-Za-z0-9_$]*|<==|==>|<--|-->|===|\*\*=|<<=|>>=|&&|\|\||\*\*|<<|>>|<=|>=|==|!=|\+=|-=|\*=|/=|\\=|%=|&=|\|=|\^=|\+\+|--|\s+|.', re.S)
KW = ("signal input output var component template function bus if else while for return log assert include pragma circom main public parallel custom "
      "extern_c custom_templates _ in").split()
OPS = "+ - * / \\ % ** == != < > <= >= && || ! & | ^ ~ << >> ? : = += -= *= **= /= \\= %= &= |= ^= <<= >>= <== ==> <-- --> === ++ -- ( ) [ ] { } , ; .".split()
LITS = ["0", "1", "2", "3", "7", "255", "0x0", "0xff", "0x", "21888242871839275222246405745257275088548364400416034343698204186575808495617", "1" + "0" * 90, "99999999999", "18446744073709551616",
        '"a"', '""', '"%s\\n"', '"\\"', "1.5", "2a", "é", "$", "$x", "a_b", "__"]
STMTS = ["signal input zz;", "signal zz;", "signal zz[2];", "var zz;", "var zz = 1;", "var zz[2] = [1,2];", "component zz;", "return 1;", "return;", "log();", 'log("x", 1);', "assert(1);", "assert(0);",
         "zz = 1;", "zz <== 1;", "zz <-- 1;", "zz === 1;", "1 === 1;", "1 === 2;", "if (1) { }", "if (0) { zz = 1; } else { }", "while (0) { }", "for (;;) { }", "(zz, yy) = (1, 2);", "_ <== 1;", "(_, zz) <== T()(1);",
         "{ var zz; }", ";", "zz++;", "zz[0]++;", "{}", "signal {a} output zz;", "signal input {a, b} zz <== 1;", "zz.a = 1;", "in.a = 1;", "include \"x\";", "var zz[1][2];", "var a, b = 2, c[3];", "signal a, b;", "component x, y = T();"]


def tokens(s): return TOK.findall(s)


def names(ts): return [t for t in ts if re.match(r"[A-Za-z_$]", t)]


def mutate_tokens(r, text, other, n=None):
    ts = tokens(text)
    solid = [i for i, t in enumerate(ts) if not t.isspace()]
    if not solid: return text
    ids = names(ts) or ["x"]
    oth = [t for t in tokens(other) if not t.isspace()] or ["x"]
    for _ in range(n or r.choice([1, 1, 1, 2, 2, 3, 6])):
        i = r.choice(solid)
        if i >= len(ts): continue
        k = r.randrange(14)
        if k == 0: ts[i] = ""
        elif k == 1: ts[i] = ts[i] + " " + ts[i]
        elif k == 2:
            j = r.choice(solid)
            if j < len(ts): ts[i], ts[j] = ts[j], ts[i]
        elif k == 3: ts[i] = r.choice(KW)
        elif k == 4: ts[i] = r.choice(OPS)
        elif k == 5: ts[i] = r.choice(LITS)
        elif k == 6: ts[i] = r.choice(ids)
        elif k == 7: ts[i] = r.choice(oth)
        elif k == 8: ts.insert(i, " " + r.choice(OPS + ids + LITS + KW) + " ")
        elif k == 9:
            j = min(len(ts), i + r.randrange(1, 12))
            cut = ts[i:j]
            if r.random() < .5: del ts[i:j]
            else: ts[i:i] = cut
            solid = [q for q, t in enumerate(ts) if not t.isspace()] or [0]
        elif k == 10:
            # same class: identifier for identifier, operator for operator, literal for literal
            t = ts[i]
            if re.match(r"\d", t): ts[i] = r.choice(LITS[:13])
            elif t in KW: ts[i] = r.choice(KW)
            elif re.match(r"[A-Za-z_$]", t): ts[i] = r.choice(ids)
            else: ts[i] = r.choice(OPS)
        elif k == 11:
            q = [x for x in solid if x < len(ts) and ts[x] in (";", "{", "}")]
            if q: ts.insert(r.choice(q) + 1, " " + r.choice(STMTS).replace("zz", r.choice(ids + ["zz"])) + " ")
        elif k == 12:
            q = [x for x in solid if x < len(ts) and ts[x] in "()[]"]
            if q: ts[r.choice(q)] = r.choice(["(", ")", "[", "]", "", "[0]", "[-1]", "[99]", "()"])
        elif k == 13:
            q = [x for x in solid if x < len(ts) and re.match(r"[A-Za-z_$]", ts[x])]
            if q:
                x = r.choice(q); ts[x] = ts[x] + r.choice([".a", "[0]", "[1]", "[i]", "()", "(1)", "(1)(2)", ".b.c", "[0][0]", "++", "[0].x"])
        if not ts: return ""
        solid = [q for q, t in enumerate(ts) if not t.isspace()] or [0]
    return "".join(ts)


def mutate_lines(r, text, other):
    ls, ot = text.split("\n"), other.split("\n")
    for _ in range(r.choice([1, 1, 2, 4])):
        i = r.randrange(len(ls)); k = r.randrange(6)
        if k == 0: del ls[i]
        elif k == 1: ls.insert(i, ls[r.randrange(len(ls))])
        elif k == 2:
            j = r.randrange(len(ls)); ls[i], ls[j] = ls[j], ls[i]
        elif k == 3: ls.insert(i, r.choice(ot))
        elif k == 4: ls[i] = r.choice(ot)
        else:
            j = r.randrange(i, len(ls)); seg = ls[i:j]; r.shuffle(seg); ls[i:j] = seg
        if not ls: return ""
    return "\n".join(ls)


def mutate_bytes(r, text):
    b = bytearray(text.encode())
    for _ in range(r.choice([1, 1, 2, 5])):
        i = r.randrange(len(b) + 1); k = r.randrange(5)
        if k == 0 and i < len(b): del b[i]
        elif k == 1: b.insert(i, r.randrange(256))
        elif k == 2 and i < len(b): b[i] = r.randrange(256)
        elif k == 3: b = b[:i] if r.random() < .3 else b
        else: b[i:i] = r.choice([b"/*", b"*/", b"//", b"\r\n", b"\t", b"\0", b"\xef\xbb\xbf", "é中😀".encode(), b"\"", b"/**/", b"/*/", b"*/*"])
    return bytes(b)


def nest(r):
    """moderate nesting (no stack-depth tests here)"""
    n = r.choice([5, 20, 60])
    return r.choice([
        lambda: "pragma circom 2.0.0;\ntemplate T(){ signal output o; o <== %s1%s; }\ncomponent main = T();" % ("(" * n, ")" * n),
        lambda: "pragma circom 2.0.0;\ntemplate T(){ signal output o; %s o <== 1; %s }\ncomponent main = T();" % ("{" * n, "}" * n),
        lambda: "pragma circom 2.0.0;\ntemplate T(){ signal output o; %s o <== 1; %s }\ncomponent main = T();" % ("if (1) {" * n, "}" * n),
        lambda: "pragma circom 2.0.0;\ntemplate T(){ signal output o; o <== %s1; }\ncomponent main = T();" % ("-" * n),
        lambda: "pragma circom 2.0.0;\ntemplate T(){ signal output o; o <== %s1%s; }\ncomponent main = T();" % ("1 ? (" * n, ") : 0" * n),
        lambda: "pragma circom 2.0.0;\ntemplate T(){ var a%s = %s1%s; }\ncomponent main = T();" % ("[1]" * min(n, 20), "[" * min(n, 20), "]" * min(n, 20)),
        lambda: "".join("pragma circom 2.0.0;\n" for _ in range(n)),
        lambda: "/*" * n, lambda: "*/" * n, lambda: "//" * n, lambda: '"' * n, lambda: ";" * n, lambda: "{" * n, lambda: "((" * n,
    ])()


class Soup:
    """random but syntactically plausible programs with no regard for types and scopes"""

    def __init__(self, r): self.r = r

    def name(self): return self.r.choice(["a", "b", "c", "i", "x", "in", "out", "T", "U", "f", "g", "B", "n", "m", "main"])

    def e(self, d=3):
        r = self.r
        k = r.randrange(13) if d > 0 else r.randrange(4)
        if k == 0: return r.choice(LITS[:13])
        if k in (1, 2): return self.name()
        if k == 3: return r.choice(["-1", "!a", "~x", "_"])
        if k == 4: return "(%s)" % self.e(d - 1)
        if k in (5, 6): return "%s %s %s" % (self.e(d - 1), r.choice("+ - * / \\ % ** == != < > <= >= && || & | ^ << >>".split()), self.e(d - 1))
        if k == 7: return "%s[%s]" % (self.name(), self.e(d - 1))
        if k == 8: return "%s.%s" % (self.name(), self.name())
        if k == 9: return "%s(%s)" % (r.choice("fgTUB"), ", ".join(self.e(d - 1) for _ in range(r.randrange(3))))
        if k == 10: return "%s(%s)(%s)" % (r.choice("TUfB"), ", ".join(self.e(d - 2) for _ in range(r.randrange(2))), ", ".join(r.choice(["", "", "in <== ", "a <-- "]) + self.e(d - 1) for _ in range(r.randrange(3))))
        if k == 11: return "[%s]" % ", ".join(self.e(d - 1) for _ in range(r.randrange(0, 4)))
        return r.choice(["(%s ? %s : %s)" % (self.e(d - 1), self.e(d - 1), self.e(d - 1)), "(%s, %s)" % (self.e(d - 1), self.e(d - 1)), "parallel " + self.e(d - 1)])

    def lv(self): return self.name() + "".join(self.r.choice(["", "", "", "[%s]" % self.e(1), "." + self.name()]) for _ in range(2))

    def dims(self): return "".join("[%s]" % self.e(1) for _ in range(self.r.choice([0, 0, 0, 1, 1, 2])))

    def s(self, d=3):
        r = self.r; k = r.randrange(17)
        if k == 0: return "signal %s%s%s%s;" % (r.choice(["", "input ", "output "]), r.choice(["", "", "{tag} ", "{t, u} "]), self.name(), self.dims() + r.choice(["", "", " <== " + self.e(), " <-- " + self.e()]))
        if k == 1: return "var %s%s%s;" % (self.name(), self.dims(), r.choice(["", " = " + self.e()]))
        if k == 2: return "component %s%s%s;" % (self.name(), self.dims(), r.choice(["", " = " + self.e()]))
        if k in (3, 4, 5): return "%s %s %s;" % (self.lv(), r.choice("= = += -= *= <== <== <-- <-- === ==> --> **= <<= /= \\= %= |= &= ^=".split()), self.e())
        if k == 6: return "%s === %s;" % (self.e(), self.e())
        if k == 7 and d: return "if (%s) %s%s" % (self.e(), self.s(d - 1), r.choice(["", " else " + self.s(d - 1)]))
        if k == 8 and d: return "for (var i = 0; i < %d; i++) %s" % (r.randrange(4), self.s(d - 1))
        if k == 9 and d: return "{ %s }" % " ".join(self.s(d - 1) for _ in range(r.randrange(4)))
        if k == 10: return "return %s;" % self.e()
        if k == 11: return "log(%s);" % ", ".join(r.choice(['"s"', self.e(1)]) for _ in range(r.randrange(3)))
        if k == 12: return "assert(%s);" % self.e()
        if k == 13: return "%s%s;" % (self.lv(), r.choice(["++", "--"]))
        if k == 14: return "(%s, %s) %s %s;" % (r.choice(["_", self.lv()]), r.choice(["_", self.lv()]), r.choice(["=", "<==", "<--"]), self.e())
        if k == 15: return "B(%s) %s%s%s;" % (r.choice(["", self.e(1)]), r.choice(["", "input ", "output "]), self.name(), self.dims())
        return "%s;" % self.e()

    def text(self):
        r = self.r; o = ["pragma circom %s;\n" % r.choice(["2.0.0", "2.1.6", "2.2.0", "2.2.3"])]
        if r.random() < .1: o.append("pragma custom_templates;\n")
        for n in r.sample("TUfgB", r.randrange(2, 6)):
            body = "\n  ".join(self.s() for _ in range(r.randrange(1, 7)))
            if n in "TU":
                sig = "signal input in; signal output out; " if r.random() < .7 else ""
                o.append("template %s%s(%s) {\n  %s%s\n}\n" % (r.choice(["", "", "", "custom ", "parallel "]), n, r.choice(["", "", "n", "n, m"]), sig, body))
            elif n in "fg": o.append("function %s(%s) {\n  %s\n  return %s;\n}\n" % (n, r.choice(["", "a", "a, b"]), body, self.e()))
            else: o.append("bus B(%s) {\n  %s\n}\n" % (r.choice(["", "n"]), " ".join("signal %s%s;" % (x, self.dims()) for x in "ab") if r.random() < .7 else body))
        if r.random() < .95: o.append("component main %s= %s(%s);\n" % (r.choice(["", "", "{public [in]} "]), r.choice("TTTTUf"), r.choice(["", "", "2", "1, 2"])))
        return "".join(o)


# ------------------------------------------------------------ mutations of syntax trees
EXPR = {"num", "var", "bin", "un", "tern", "call", "anon", "arr", "paren", "tup", "inst"}
STMT = {"sig", "let", "comp", "set", "ceq", "if", "while", "for", "ret", "assert", "log", "block", "inc", "tupset", "expr"}


def is_e(x): return isinstance(x, tuple) and x and x[0] in EXPR


def is_s(x): return isinstance(x, tuple) and x and x[0] in STMT


def collect(x, es, ss):
    if is_e(x): es.append(x)
    elif is_s(x): ss.append(x)
    if isinstance(x, (tuple, list)):
        for y in x: collect(y, es, ss)


def replace(x, old, new):
    """tree with the node that is `old` (by identity) replaced; a list splices a list result"""
    if x is old: return new
    if isinstance(x, tuple): return tuple(replace(y, old, new) for y in x)
    if isinstance(x, list):
        o = []
        for y in x:
            z = replace(y, old, new)
            if isinstance(z, list) and not isinstance(y, list): o += z
            else: o.append(z)
        return o
    return x


def mutate_ast(r, prog, n=None):
    """change a few nodes of a program (in place); the text stays syntactically valid"""
    bodies = [("t", k) for k in prog.templates] + [("f", k) for k in prog.funcs] + [("b", k) for k in prog.buses]

    def get(b): return prog.templates[b[1]].body if b[0] == "t" else (prog.funcs if b[0] == "f" else prog.buses)[b[1]][1]

    def put(b, v):
        v = list(v)
        if b[0] == "t": prog.templates[b[1]].body = v
        else:
            d = prog.funcs if b[0] == "f" else prog.buses
            d[b[1]] = (d[b[1]][0], v)
    alle, alls = [], []
    for b in bodies: collect(get(b), alle, alls)
    for _ in range(n or r.choice([1, 1, 1, 2, 3])):
        b = r.choice([x for x in bodies if x[0] == "t"] * 3 + bodies)
        es, ss = [], []
        collect(get(b), es, ss)
        k = r.randrange(16)
        if k < 7 and es:
            e = r.choice(es)
            pool = es if r.random() < .7 else alle
            vs = [x for x in pool if x[0] == "var"] or pool
            w = r.randrange(13)
            new = (r.choice(pool) if w < 2 else r.choice(vs) if w < 4 else ("num", r.choice([0, 1, 2, 3, 5, 1000, 2 ** 64, 2 ** 200])) if w == 4 else ("arr", (e, r.choice(pool))) if w == 5
                   else ("bin", r.choice("+ - * / \\ % ** << >> & | ^ && || == != < > <= >=".split()), e, r.choice(pool)) if w == 6 else ("un", r.choice("-!~"), e) if w == 7
                   else ("tern", r.choice(pool), e, r.choice(pool)) if w == 8 else ("call", r.choice(list(prog.funcs) or ["f"]), (e,)) if w == 9
                   else ("var", e[1], e[2] + (r.choice([("i", r.choice(pool)), ("i", ("num", r.randrange(4))), ("f", r.choice(["x0", "out0", "in0", "zz"]))]),)) if w == 10 and e[0] == "var"
                   else ("var", e[1], e[2][:-1]) if w == 11 and e[0] == "var" and e[2] else ("bin", r.choice("+-*"), e[3], e[2]) if e[0] == "bin" else e)
            put(b, replace(get(b), e, new))
        elif k < 9 and ss: put(b, replace(get(b), r.choice(ss), []))
        elif k < 11 and ss:
            s = r.choice(ss); put(b, replace(get(b), s, [s, r.choice(ss if r.random() < .7 else alls)]))
        elif k == 11 and len(ss) > 1:
            s, t = r.choice(ss), r.choice(ss)
            x = replace(get(b), s, ("block", [t])); put(b, x)
        elif k == 12:
            ls = [s for s in ss if s[0] in ("set", "sig", "let", "comp")]
            if ls:
                s = r.choice(ls)
                if s[0] == "set": new = ("set", r.choice("= += -= *= <== <-- ==> --> **= <<= |= \\=".split()), s[2], s[3])
                elif s[0] == "sig": new = ("sig", r.choice(["", "input", "output"]), s[2] if r.random() < .6 else ["tg"], s[3], s[4] if r.random() < .5 else s[4][1:] if s[4] else [("num", 2)], s[5], s[6])
                else: new = (s[0], s[1], [("num", r.randrange(4))] if r.random() < .5 else s[2], s[3] if r.random() < .6 else None)
                put(b, replace(get(b), s, new))
        elif k == 13 and ss:
            s = r.choice(ss)
            put(b, replace(get(b), s, ("if", r.choice(es or [("num", 1)]), [s], [r.choice(ss)] if r.random() < .4 else None)))
        elif k == 14 and ss:
            s = r.choice(ss)
            put(b, replace(get(b), s, ("for", ("let", "qq", [], ("num", 0)), ("bin", "<", ("var", "qq", ()), ("num", r.randrange(4))), ("inc", ("var", "qq", ()), "++"), [s])))
        elif k == 15 and ss:
            # move a statement elsewhere
            s = r.choice(ss); x = replace(get(b), s, [])
            e2, s2 = [], []
            collect(x, e2, s2)
            if s2:
                t = r.choice(s2); x = replace(x, t, [t, s] if r.random() < .5 else [s, t])
                put(b, x)
    if r.random() < .1 and prog.main:
        prog.main = (r.choice(list(prog.templates)), tuple(("num", r.randrange(4)) for _ in range(r.randrange(3))))
    return prog
