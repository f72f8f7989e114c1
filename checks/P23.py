"""P23: expressions and literals are read as documented."""
import os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap, circom
from vlib.case import make_case, guarded, PROFILES
from vlib.accept import pair, verdict, FLAGS, error_lines
from vlib.drive import PS
from vlib.field import Field, DivZero, BINOPS, UNOPS
from vlib.files import read_r1cs, read_sym, poly
from vlib.layout import tokens, relayout, glued, comment, sep, STYLES
from vlib.wit import Wasm

# as in Rust (basic-operators.md); ** binds tighter than *, unary operators tightest
TIER = {"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, ">": 3, "<=": 3, ">=": 3, "|": 4, "^": 5, "&": 6, "<<": 7, ">>": 7, "+": 8, "-": 8, "*": 9, "/": 9, "\\": 9, "%": 9, "**": 10}
NAMES = ["a", "b", "c", "d"]


class Gen:
    def __init__(self, r, F, known):
        self.r, self.F, self.known = r, F, known
        self.vals = {n: r.choice([r.randrange(10), F.rand(r)]) for n in NAMES}
        self.arr = [[F.rand(r), r.randrange(9), 3], [1, 2, F.rand(r)]]

    def leaf(self):
        r = self.r
        k = r.random()
        if k < .45: return ("n", r.choice([r.randrange(12), r.randrange(12), self.F.rand(r), 255]))
        if k < .8: return ("v", r.choice(NAMES))
        if k < .9: return ("a", ("n", r.randrange(2)), ("n", r.randrange(3)))
        return ("f", ("n", r.randrange(5)), ("v", r.choice(NAMES)))

    def expr(self, d):
        r = self.r
        if d == 0 or r.random() < .1: return self.leaf()
        k = r.random()
        if k < .13: return ("u", r.choice(UNOPS), self.expr(d - 1))
        if k < .2: return ("t", self.expr(d - 1), self.expr(d - 1), self.expr(d - 1))
        if k < .25: return ("f", self.expr(d - 1), self.expr(d - 1))
        op = r.choice(BINOPS)
        return ("b", op, self.expr(d - 1), self.expr(d - 1))

    def value(self, e):
        F, k = self.F, e[0]
        if k == "n": return e[1] % F.p
        if k == "v": return self.vals[e[1]] % F.p
        if k == "a": return self.arr[self.value(e[1])][self.value(e[2])] % F.p
        if k == "f": return (self.value(e[1]) - 2 * self.value(e[2])) % F.p
        if k == "u": return F.un(e[1], self.value(e[2]))
        if k == "t":
            # (both branches are expressions on known values: neither may be undefined)
            c, x, y = self.value(e[1]), self.value(e[2]), self.value(e[3])
            return x if c else y
        a, b = self.value(e[2]), self.value(e[3])
        if e[1] in ("/", "\\", "%") and b == 0: raise DivZero()
        return F.bin(e[1], a, b)

    def literal(self, v):
        r, p = self.r, self.F.p
        k = r.random()
        if k < .15: v += p * r.choice([1, 1, 2, r.getrandbits(r.choice([3, 64, 300, 2000]))])
        if k > .7: return "0x" + "0" * r.choice([0, 0, 1, 20]) + r.choice(["%x", "%X"]) % v
        return "0" * r.choice([0, 0, 0, 0, 1, 2, 30]) + str(v)

    # ------------------------------------------------ texts (lists of tokens)
    def lit(self, e, lits):
        """the same literal in both texts"""
        if id(e) not in lits: lits[id(e)] = (self.literal(e[1] % self.F.p), e)
        return lits[id(e)][0]

    def full(self, e, L):
        k = e[0]
        if k == "n": return [self.lit(e, L)]
        if k == "v": return [e[1]]
        if k == "a": return ["A", "["] + self.full(e[1], L) + ["]", "["] + self.full(e[2], L) + ["]"]
        if k == "f": return ["fn", "("] + self.full(e[1], L) + [","] + self.full(e[2], L) + [")"]
        if k == "u": return ["(", e[1]] + self.full(e[2], L) + [")"]
        if k == "t": return ["("] + self.full(e[1], L) + ["?"] + self.full(e[2], L) + [":"] + self.full(e[3], L) + [")"]
        return ["("] + self.full(e[2], L) + [e[1]] + self.full(e[3], L) + [")"]

    def mini(self, e, L, prec):
        """prec: the least tier that needs no parentheses (0 conditional, 11 operand of a unary operator)"""
        k = e[0]
        if k == "n": t, q = [self.lit(e, L)], 12
        elif k == "v": t, q = [e[1]], 12
        elif k == "a": t, q = ["A", "["] + self.mini(e[1], L, 0) + ["]", "["] + self.mini(e[2], L, 0) + ["]"], 12
        elif k == "f": t, q = ["fn", "("] + self.mini(e[1], L, 0) + [","] + self.mini(e[2], L, 0) + [")"], 12
        elif k == "u": t, q = [e[1]] + self.mini(e[2], L, 12), 11
        elif k == "t": t, q = self.mini(e[1], L, 1) + ["?"] + self.mini(e[2], L, 1) + [":"] + self.mini(e[3], L, 1), 0
        else:
            q = TIER[e[1]]
            t = self.mini(e[2], L, q) + [e[1]] + self.mini(e[3], L, q + 1)
        if q < prec or self.r.random() < .03: t = ["("] + t + [")"]
        return t


def text(g, exprs, known, stmts, r, style=None):
    """program with one output for each expression; exprs: lists of tokens"""
    V = g.vals
    t = tokens("pragma circom 2.1.0; function fn(x, y) { return x - 2 * y; } template M() {")
    if known:
        t += tokens(" ".join("var %s = %d;" % (n, V[n]) for n in NAMES) + " var A[2][3] = [[%d, %d, %d], [%d, %d, %d]];" % tuple(g.arr[0] + g.arr[1]))
    else:
        t += tokens(" ".join("signal input %s;" % n for n in NAMES) + " signal input A[2][3];")
    t += tokens("signal output o[%d];" % len(exprs))
    for i, (e, how) in enumerate(zip(exprs, stmts)):
        o = ["o", "[", str(i), "]"]
        op = ["<==" if known else "<--"]
        if how[0] == "direct": t += o + op + e + [";"]
        elif how[0] == "right": t += e + ["==>" if known else "-->"] + o + [";"]
        elif how[0] == "var": t += ["{", "var", "v", "="] + e + [";"] + o + op + ["v", ";", "}"]
        elif how[0] == "op": t += ["{", "var", "v", "=", str(how[2]), ";", "v", how[1] + "="] + e + [";"] + o + op + ["v", ";", "}"]
        elif how[0] == "call": t += o + op + ["fn", "("] + e + [",", "0", ")", ";"]
        elif how[0] == "array": t += ["{", "var", "v", "[", "2", "]", "=", "["] + e + [",", "7", "]", ";"] + o + op + ["v", "[", "0", "]", ";", "}"]
        elif how[0] == "if": t += ["{", "var", "v", "=", "0", ";", "if", "("] + e + [")", "{", "v", "=", "1", ";", "}"] + o + op + ["v", ";", "}"]
    t += tokens("} component main = M();")
    return relayout(r, t, style)


@guarded
def values(a, res):
    r = random.Random(a["seed"])
    F = Field(a["prime"])
    known = r.random() < .6
    g = Gen(r, F, known)
    es, vs, hows = [], [], []
    for _ in range(r.choice([4, 12, 25])):
        e = g.expr(r.choice([1, 2, 2, 3, 3, 4]))
        how = r.choice([("direct",), ("direct",), ("right",), ("var",), ("op", r.choice([o for o in BINOPS if o not in ("&&", "||", "==", "!=", "<", ">", "<=", ">=")]), r.randrange(9)), ("call",), ("array",), ("if",)])
        try:
            v = g.value(e)
            if how[0] == "op":
                if how[1] in ("/", "\\", "%") and v == 0: continue
                v = F.bin(how[1], how[2], v)
            if how[0] == "if": v = int(v != 0)
        except DivZero: continue
        es.append(e); vs.append(v); hows.append(how)
    if not es: return
    L = {}
    tm = text(g, [g.mini(e, L, 0) for e in es], known, hows, r)
    tf = text(g, [g.full(e, L) for e in es], known, hows, r, dict(comment=0, tight=0))
    key = "values/%d/%s" % (a["seed"], a["prime"])
    outs = []
    for nm, t in (("m", tm), ("f", tf)):
        x = circom(t, ["--O0", "--r1cs", "--sym", "--prime", a["prime"]] + ([] if known else ["--wasm"]), a["dir"] + "/" + nm)
        if x.timeout: res.inc("compile timeout"); return
        if x.rc: res.viol(key + "/rejected", "a valid program is rejected: %s" % x.text.strip()[-500:], program=t); return
        outs.append(open(a["dir"] + "/%s/c.r1cs" % nm, "rb").read())
    if outs[0] != outs[1]: res.viol(key + "/parentheses", "the fully parenthesised program has other constraints", program=tm, full=tf); return
    if known:
        R = read_r1cs(a["dir"] + "/m/c.r1cs")
        got = {}
        for c in R.cons:
            pl = poly(c, R.p)
            ws = [k for k in pl if k != (0,) and k != () and any(k)]
            if len(ws) != 1: continue
            w = ws[0]
            c0 = sum(v for k, v in pl.items() if k != w) % R.p
            got[w[-1]] = -c0 * F.inv(pl[w]) % R.p
        got = [got.get(i + 1) for i in range(len(es))]
    else:
        sym = read_sym(a["dir"] + "/m/c.sym")
        inp = dict({n: str(v) for n, v in g.vals.items()}, A=[[str(x) for x in row] for row in g.arr])
        w = Wasm.get().run(a["dir"] + "/m", "c", [inp])[0]
        w2 = Wasm.get().run(a["dir"] + "/f", "c", [inp])[0]
        if w["w"] is None: res.viol(key + "/refused", "witness refused: %s" % w["err"], program=tm, input=inp); return
        if w["w"] != w2["w"]: res.viol(key + "/parentheses-witness", "the fully parenthesised program has another witness", program=tm, full=tf, input=inp); return
        got = w["w"][1:1 + len(es)]
    for i, (e, v, gv) in enumerate(zip(es, vs, got)):
        res.ev()
        if gv != v:
            t = " ".join(g.mini(e, L, 0))
            res.viol(key + "/value", "%s (%s, %s) is %s instead of %s" % (t[:300], "known" if known else "at run time", "/".join(map(str, hows[i])), gv, v), program=tm, values=g.vals); return
        if e[0] in "but": res.seen((tuple(g.full(e, L)), known), {"expression": " ".join(g.mini(e, L, 0))[:200], "value": str(v), "known": known})
    res.cnt("expressions_known" if known else "expressions_at_run_time", len(es))


@guarded
def layout(a, res):
    """another layout of a generated program has the same constraints, wires and witness"""
    r = random.Random(a["seed"])
    c = make_case(r.randrange(1 << 40), a["prime"], a["opts"], 1)
    if c is None: res.cnt("outside_model"); return
    toks = tokens(c.text)
    fl = r.choice([["--O0"], ["--O1"], ["--O2"]]) + ["--r1cs", "--sym", "--json", "--prime", a["prime"]]
    run = r.random() < .3
    arts = []
    st = r.choice(STYLES)
    t2 = relayout(r, toks, st)
    if r.random() < .2: t2 = t2.replace("\r\n", "\n").replace("\n", "\r\n")
    if r.random() < .1 and not re.search(r"//", re.sub(r'"[^"\n]*"', "", t2)): t2 = t2.replace("\n", " ")
    for nm, t in (("p", c.text), ("q", t2)):
        x = circom(t.encode(), fl + (["--wasm"] if run else []), a["dir"] + "/" + nm)
        if x.timeout: res.inc("compile timeout"); return
        if x.rc:
            if nm == "p": res.cnt("rejected_by_compiler"); return
            res.viol("layout/%d/rejected" % a["seed"], "the program in another layout is rejected: %s" % x.text.strip()[-500:], program=t2, original=c.text); return
        # (anonymous components are named by their position)
        arts.append([re.sub(rb"_\d+_\d+(?=[.\[])", b"_#", b) if s == ".sym" else b for s, b in ((s, open(a["dir"] + "/%s/c%s" % (nm, s), "rb").read()) for s in (".r1cs", ".sym", "_constraints.json"))])
    res.ev()
    if arts[0] != arts[1]: res.viol("layout/%d/artefacts" % a["seed"], "another layout gives another %s" % [n for n, p, q in zip(("r1cs", "symbol file", "constraint file"), *arts) if p != q][0], program=t2, original=c.text); return
    if run:
        ws = [Wasm.get().run(a["dir"] + "/" + nm, "c", c.inputs)[0] for nm in "pq"]
        if ws[0]["w"] != ws[1]["w"] or ws[0]["log"] != ws[1]["log"]: res.viol("layout/%d/witness" % a["seed"], "another layout gives another witness or log", program=t2, original=c.text, inputs=c.inputs); return
        res.cnt("witnesses_compared")
    res.cnt("layouts_compared")
    res.seen(("layout", a["seed"]), {"layout": t2[:150], "flags": fl})


NUMS = ["0x", "0xg", "0xG1", "1_000", "12abc", "1.5", "1e5", "0b11", "0o17", "'a'", "1'000", "#1", "0x 1", "1 2", "0X1f", "1..2", "0x1g", "@1", "1u8", "0x1_0", "08f", "١", "１"]
OPEN = ["/*", "/*/", "/**", "/***", "/* *", "/* /", "/* x //", "/* \"*\"", "/*\n\n", "/* é", "/* * /"]


@guarded
def malformed(a, res):
    r = random.Random(a["seed"])
    c = make_case(r.randrange(1 << 40), "bn128", a["opts"], 0)
    if c is None: res.cnt("outside_model"); return
    toks = tokens(c.text)
    st = r.choice([dict(comment=0, tight=.5), dict(comment=0, tight=1), dict(comment=0, tight=0)])
    fl = [] if r.random() < .5 else [f for f in r.choice(FLAGS) if f not in ("--prime", "goldilocks")]
    if r.random() < .5:
        # an unclosed comment
        i = r.choice([len(toks), 0, r.randrange(len(toks) + 1), r.randrange(len(toks) + 1)])
        o = r.choice(OPEN)
        # (the text itself has no comments, and its strings close none)
        pre, post = "".join(t + " " for t in toks[:i]), " ".join(toks[i:])
        if r.random() < .3: pre += "\n" * r.randrange(3)
        if "*/" in o + post or "*/" in pre: return
        cl = o + " */"
        good, bad = pre + cl + post, pre + o + post
        what = "unclosed comment %r" % o
        if r.random() < .15: good, bad, what = pre + "/* */" + post, pre + "/* */ */" + post, "comment closed twice"
    else:
        ix = [i for i, t in enumerate(toks) if re.match(r"\d", t) and toks[i - 1] not in (".", "circom")]
        ix = [i for i in ix if toks[i + 1] != "."]
        if not ix: return
        i = r.choice(ix)
        b = r.choice(NUMS)
        good, bad = " ".join(toks), " ".join(toks[:i] + [b] + toks[i + 1:])
        what = "malformed literal %s" % b
    x = pair(res, a, "malformed/%d" % a["seed"], r, good, bad, what, flags=fl)
    if not x: return
    if x is not True and what.startswith("unclosed"):
        res.cnt("unclosed_comments")
    res.seen((what, bad[-200:]), {"mistake": what})


def body(c):
    c.rule = "an expression whose value was compared with the documented one in both forms, a program compared in two layouts, or a pair of malformed and well-formed texts"

    def items(n, **kw):
        pr = sorted(PROFILES)
        for k in range(n):
            yield dict(seed=c.rng.randrange(1 << 40), prime=PS[(k // 3) % len(PS)] if k % 3 == 0 else "bn128", opts=PROFILES[pr[k % len(pr)]], dir=c.scratch + "/%s%d" % (kw["tag"], k), k=k)
    c.absorb(pmap(values, items(100000, tag="v"), deadline=c.budget(20, 600)))
    c.absorb(pmap(layout, items(100000, tag="l"), deadline=c.budget(35, 1000)))
    c.absorb(pmap(malformed, items(100000, tag="m"), deadline=c.budget(45, 1300)))


if __name__ == "__main__":
    main("P23", body)
