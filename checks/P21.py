"""P21: signals are assigned exactly once and never as inputs from inside."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap
from vlib.accept import pair, Wrap, FLAGS
from vlib.case import guarded

# types: "s" a signal, ("a", n, t) an array, ("b", name) a bus
BUSES = {"P": [("x", "s"), ("y", "s")], "Q": [("p", ("b", "P")), ("v", ("a", 2, "s"))], "R": [("q", ("a", 2, ("b", "P"))), ("z", "s")]}
TEMPLATES = {  # inputs, outputs, intermediates
    "T0": ([("in", "s")], [("out", "s")], [("mid", "s")]),
    "T1": ([("in", ("a", 2, "s")), ("k", "s")], [("out", ("a", 2, "s"))], []),
    "T2": ([("b", ("b", "P"))], [("o", ("b", "P")), ("out", "s")], []),
    "T3": ([("b", ("a", 2, ("b", "P"))), ("m", ("a", 2, ("a", 2, "s")))], [("out", ("a", 2, ("a", 2, "s")))], []),
    "T4": ([], [("out", "s")], []),
    "T5": ([("q", ("b", "Q"))], [("o", ("b", "Q"))], [("w", "s")]),
}
DEFS = """bus P() { signal x; signal y; }
bus Q() { P() p; signal v[2]; }
bus R() { P() q[2]; signal z; }
template T0() { signal input in; signal output out; signal mid; mid <== in; out <== mid; }
template T1() { signal input in[2]; signal input k; signal output out[2]; out[0] <== in[0]; out[1] <== in[1] + k; }
template T2() { P() input b; P() output o; signal output out; o <== b; out <== b.x; }
template T3() { P() input b[2]; signal input m[2][2]; signal output out[2][2]; out <== m; }
template T4() { signal output out; out <== 1; }
template T5() { Q() input q; Q() output o; signal w; w <== q.p.x; o <== q; }
"""


def leaves(t):
    """paths (tuples of int or field name) of the signals of a type"""
    if t == "s": return [()]
    if t[0] == "a": return [(i,) + p for i in range(t[1]) for p in leaves(t[2])]
    return [(f,) + p for f, u in BUSES[t[1]] for p in leaves(u)]


def down(t, p):
    for k in p: t = t[2] if t[0] == "a" else dict(BUSES[t[1]])[k]
    return t


def subs(t):
    """all paths of subtrees"""
    out = [()]
    if t == "s": return out
    if t[0] == "a": return out + [(i,) + p for i in range(t[1]) for p in subs(t[2])]
    return out + [(f,) + p for f, u in BUSES[t[1]] for p in subs(u)]


def decl(kind, name, t):
    dims = ""
    while t != "s" and t[0] == "a": dims += "[%d]" % t[1]; t = t[2]
    return "signal %s%s%s;" % (kind, name, dims) if t == "s" else "%s() %s%s%s;" % (t[1], kind, name, dims)


class Model:
    def __init__(self, r):
        self.r, self.n = r, 0
        self.types, self.done, self.input = {}, {}, set()
        self.comps = {}   # "c" or "c[1]" -> [template, created, {input: set of assigned leaves}]
        self.decls, self.inputs = [], []
        for b in BUSES:
            self.obj("i" + b, ("b", b), "input ")
        self.obj("ix", "s", "input "); self.obj("ia", ("a", 2, ("a", 2, "s")), "input ")
        kinds = ["s", ("a", 3, "s"), ("a", 2, ("a", 3, "s")), ("b", "P"), ("b", "Q"), ("b", "R"), ("a", 2, ("b", "P")), ("a", 2, ("a", 2, ("b", "Q"))), ("a", 2, ("b", "R"))]
        for i in range(r.choice([1, 2, 3, 4])):
            self.obj("s%d" % i, r.choice(kinds), r.choice(["", "", "output "]))
        for i in range(r.choice([0, 1, 1, 2, 3])):
            t = r.choice(sorted(TEMPLATES))
            if r.random() < .4:
                self.decls.append("component c%d[2];" % i)
                for j in range(2): self.comps["c%d[%d]" % (i, j)] = [t, False, {}]
            else:
                self.decls.append("component c%d;" % i)
                self.comps["c%d" % i] = [t, False, {}]
        r.shuffle(self.decls)

    def obj(self, name, t, kind):
        self.types[name] = t
        self.done[name] = set(leaves(t)) if kind == "input " else set()
        if kind == "input ":
            self.input.add(name)
            self.inputs.append((name, t))
        self.decls.append(decl(kind, name, t))

    def name(self):
        self.n += 1
        return "t%d" % self.n

    def idx(self, i):
        r = self.r
        return r.choice([str(i)] * 4 + ["N - %d" % (3 - i), "%d + N - 3" % i, "kk[%d]" % i, {0: "0 * N", 1: "N \\ 3"}.get(i, "N - 1"), "idn(%d)" % i])

    def path(self, base, p):
        return base + "".join("[%s]" % self.idx(k) if isinstance(k, int) else "." + k for k in p)

    def source(self, t):
        """an expression that has a value, of type t"""
        r = self.r
        if t == "s": return r.choice(["1", "ix", "ix + 2", "ix * ia[0][1]", "ia[1][0]", "iP.x"])
        if t[0] == "b": return "i" + t[1]
        return "[" + ", ".join(self.source(t[2]) for _ in range(t[1])) + "]"

    def put(self, lhs, t):
        e, r = self.source(t), self.r
        op = r.choice(["<==", "<==", "<--", "==>"]) if t == "s" or t[0] == "a" else r.choice(["<==", "<==", "==>", "<--"])
        if op == "==>": return "%s ==> %s;" % (e, lhs)
        return "%s %s %s;" % (lhs, op, e)

    def either(self, lhs, t):
        """assigned in both branches of an unknown condition, which is one assignment"""
        r = self.r
        c = r.choice(["ix == 1", "ix < 5", "iP.x != ia[0][0]"])
        b = ["%s <-- %s;" % (lhs, self.source(t)) for _ in range(3)]
        if r.random() < .25: return "if (%s) { %s } else { if (ia[0][1] == 2) { %s } else { %s } }" % (c, *b)
        return "if (%s) { %s } else { %s }" % (c, b[0], b[1])

    def get(self, expr, t):
        """a statement that reads expr"""
        r, v = self.r, self.name()
        d = decl("", v, t)
        if t == "s":
            return r.choice(["var %s = %s;" % (v, expr), "%s %s <== %s;" % (d, v, expr), "%s * 0 === 0;" % expr, "log(%s);" % expr, "var %s = 2; %s += %s * 3;" % (v, v, expr), "assert(%s == %s);" % (expr, expr), "%s %s <-- idn(%s);" % (d, v, expr)])
        return r.choice(["%s %s <== %s;" % (d, v, expr), "%s %s ==> %s;" % (d, expr, v), "%s === %s;" % (expr, expr)])

    # ---- steps: (text, apply) pairs; good ones only
    def good(self):
        r = self.r
        c = []
        for o, t in self.types.items():
            if o not in self.input:
                free = [p for p in subs(t) if not any(l[:len(p)] == p and l in self.done[o] for l in leaves(t))]
                c += [("put", o, p) for p in free] * 2
            full = [p for p in subs(t) if all(l in self.done[o] for l in leaves(t) if l[:len(p)] == p)]
            if full: c += [("get", o, r.choice(full))]
        for k, (t, made, ins) in self.comps.items():
            if not made: c += [("new", k)] * 3; continue
            for i, it in TEMPLATES[t][0]:
                d = ins[i]
                c += [("putin", k, i, p) for p in subs(it) if not any(l[:len(p)] == p and l in d for l in leaves(it))] * 2
                full = [p for p in subs(it) if all(l in d for l in leaves(it) if l[:len(p)] == p)]
                if full: c.append(("getin", k, i, r.choice(full)))
            if self.ready(k):
                for o, ot in TEMPLATES[t][1]: c.append(("getout", k, o, r.choice(subs(ot))))
        return r.choice(c) if c else None

    def ready(self, k):
        t, made, ins = self.comps[k]
        return made and all(ins[i] == set(leaves(it)) for i, it in TEMPLATES[t][0])

    def loopable(self, base, t, p):
        return p and isinstance(p[-1], int)

    def do(self, s):
        """text of a good step, and its effect"""
        k = s[0]
        if k == "put":
            _, o, p = s
            t = self.types[o]
            self.done[o] |= {l for l in leaves(t) if l[:len(p)] == p}
            u = down(t, p)
            if self.r.random() < .12: return self.either(self.path(o, p), u)
            if u != "s" and u[0] == "a" and self.r.random() < .5:
                # element by element in a loop
                v = self.name()
                return "for (var %s = 0; %s < %d; %s++) { %s }" % (v, v, u[1], v, self.put(self.path(o, p) + "[%s]" % v, u[2]))
            return self.put(self.path(o, p), u)
        if k == "get": return self.get(self.path(s[1], s[2]), down(self.types[s[1]], s[2]))
        if k == "new":
            c = self.comps[s[1]]
            c[1] = True; c[2] = {i: set() for i, _ in TEMPLATES[c[0]][0]}
            return "%s = %s();" % (s[1], c[0])
        _, c, i, p = s
        t = dict(TEMPLATES[self.comps[c][0]][0] + TEMPLATES[self.comps[c][0]][1])[i]
        if k == "putin":
            self.comps[c][2][i] |= {l for l in leaves(t) if l[:len(p)] == p}
            if self.r.random() < .15: return self.either(self.path(c + "." + i, p), down(t, p))
            return self.put(self.path(c + "." + i, p), down(t, p))
        return self.get(self.path(c + "." + i, p), down(t, p))

    def finish(self):
        """complete the components that were created"""
        out = []
        for k, (t, made, ins) in self.comps.items():
            if not made:
                ins = self.do(("new", k)); out.append(ins); ins = self.comps[k][2]
            for i, it in TEMPLATES[t][0]:
                for l in leaves(it):
                    if l not in ins[i]: out.append(self.do(("putin", k, i, l)))
        return out

    # ---- one mistake, in the present state
    def bad(self):
        r, c = self.r, []
        for o, t in self.types.items():
            hit = [p for p in subs(t) if any(l[:len(p)] == p and l in self.done[o] for l in leaves(t))]
            miss = [p for p in subs(t) if any(l[:len(p)] == p and l not in self.done[o] for l in leaves(t))]
            if hit and o not in self.input:
                p = r.choice(hit); c.append(("assigned twice", self.put(self.path(o, p), down(t, p))))
            if o in self.input:
                p = r.choice(subs(t)); c.append(("own input assigned", self.put(self.path(o, p), down(t, p))))
            if miss:
                p = r.choice(miss); c += [("read before it is assigned", self.get(self.path(o, p), down(t, p)))] * 2
            free = [p for p in subs(t) if p and isinstance(p[-1], int) and o not in self.input and not any(l[:len(p)] == p and l in self.done[o] for l in leaves(t))]
            if free:
                p = r.choice(free); v = self.name()
                c.append(("assigned twice in a loop", "for (var %s = 0; %s < 2; %s++) { %s }" % (v, v, v, self.put(self.path(o, p[:-1]) + "[%d]" % p[-1], down(t, p)))))
            sig = [p for p in leaves(t) if o not in self.input]
            if sig:
                p = r.choice(sig); q = self.path(o, p)
                if p in self.done[o]: c.append(("assigned again under an unknown condition", "if (ix == 1) { %s <-- 1; }" % q))
                else: c += [("assigned after an assignment under an unknown condition", "if (ix == 1) { %s <-- 1; } %s <-- 2;" % (q, q)), ("assigned in a loop with an unknown condition and again", "for (var z%d = 0; z%d < ix; z%d++) { %s <-- 1; } %s <-- 2;" % ((self.n,) * 3 + (q, q)))]
        for k, (t, made, ins) in self.comps.items():
            I, O, M = TEMPLATES[t]
            if not made:
                if I:
                    i, it = r.choice(I); p = r.choice(subs(it))
                    c.append(("input of a component that does not exist yet", self.put(self.path(k + "." + i, p), down(it, p))))
                o, ot = r.choice(O); p = r.choice(subs(ot))
                c.append(("output of a component that does not exist yet", self.get(self.path(k + "." + o, p), down(ot, p))))
                continue
            c.append(("component created twice", "%s = %s();" % (k, r.choice([t, t, "T0"]))))
            o, ot = r.choice(O); p = r.choice(subs(ot))
            c.append(("output of a component assigned", self.put(self.path(k + "." + o, p), down(ot, p))))
            if not self.ready(k): c += [("output read before the inputs are assigned", self.get(self.path(k + "." + o, p), down(ot, p)))] * 2
            for m, mt in M:
                c.append(("intermediate of a component read", self.get(k + "." + m, mt))); c.append(("intermediate of a component assigned", self.put(k + "." + m, mt)))
            for i, it in I:
                hit = [p for p in subs(it) if any(l[:len(p)] == p and l in ins[i] for l in leaves(it))]
                miss = [p for p in subs(it) if any(l[:len(p)] == p and l not in ins[i] for l in leaves(it))]
                if hit: p = r.choice(hit); c += [("component input assigned twice", self.put(self.path(k + "." + i, p), down(it, p)))] * 2
                if miss: p = r.choice(miss); c.append(("component input read before it is assigned", self.get(self.path(k + "." + i, p), down(it, p))))
        k = r.choice(sorted({x[0] for x in c}))
        return r.choice([x for x in c if x[0] == k])


def wrapped(r, w, s):
    if r.random() < .3:
        w.depth = 1
        return w.nest(s)
    return s


@guarded
def job(a, res):
    r = random.Random(a["seed"])
    m = Model(r)
    w = Wrap(r)
    n = r.choice([1, 3, 6, 10, 16])
    at = r.randrange(0, n + 1)
    steps, what, bad = [], None, None
    miss = r.random() < .06
    for i in range(n):
        if i == at and not miss:
            try: what, bad = m.bad()
            except IndexError: pass
            if bad is not None: steps.append(None)
        s = m.good()
        if s is None: break
        steps.append(wrapped(r, w, m.do(s)))
    end = m.finish()
    if bad is None and not miss:
        what, bad = m.bad(); end.append(None)
    dead = r.random() < .3 and what in ("assigned twice", "assigned twice in a loop", "read before it is assigned", "component input assigned twice", "output read before the inputs are assigned")
    full = steps + end
    if miss:
        ins = [i for i, s in enumerate(full) if s and ".in" in s.split("=")[0] or s and (".b" in s.split("=")[0] or ".q" in s.split("=")[0] or ".m[" in s.split("=")[0])]
        ins = [i for i in ins if i >= len(steps)]
        if not ins: return
        what = "component input never assigned"; gone = r.choice(ins)
        good, bads = full, full[:gone] + full[gone + 1:]
    else:
        good = [s for s in full if s is not None]
        bads = [bad if s is None else s for s in full]
        if dead: good = ["if (N == 4) { %s }" % bad if s is None else s for s in full]
    decls = "  var kk[3] = [0, 1, 2];\n  " + "\n  ".join(m.decls) + "\n"
    st = r.getstate()

    def text(ss):
        r.setstate(st); w.n = 1000
        return "".join(x for x in [w.program(DEFS + "function idn(i) { return i; }\n", decls, "  " + "\n  ".join(ss) + "\n", inputs=[])])
    # inputs of M that are buses cannot be handed on by the wrapper; it stays main
    w.program_levels = 0
    G, B = text(good), text(bads)
    if "template U0" in G: G, B = strip(G), strip(B)
    key = "%d" % a["seed"]
    if pair(res, a, key, r, G, B, what + (" (not executed in the allowed program)" if dead else "")):
        res.seen((what, len(full), m.n), {"mistake": what, "statement": bad, "statements": len(full)})
        res.cnt(what.replace(" ", "_"))


def strip(t):
    """main is M itself"""
    import re
    t = re.sub(r"template U\d\(\) \{\n(?:  .*\n)*\}\n", "", t)
    return re.sub(r"component main = .*;", "component main = M(3);", t)


def body(c):
    c.rule = "a pair of programs, one assigning and reading in an allowed order, the other with one mistake, whose acceptance was compared with the model"

    def items():
        for k in range(40000 if c.quick else 400000):
            yield dict(seed=c.rng.randrange(1 << 40), dir=c.scratch + "/%d" % k)
    c.absorb(pmap(job, items(), deadline=c.budget(40, 1200)))


if __name__ == "__main__":
    main("P21", body)
