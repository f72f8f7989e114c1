"""P13: one line per executed log, in order, strings as written, values in decimal, by both
witness programs; a refused input prints the lines executed before the refusal (WASM)."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap
from vlib.case import make_case, guarded, PROFILES
from vlib.drive import stream, compiled
from vlib.gen import N, Vr, B, I, Ref, Ctx
from vlib.genr import GenR
from vlib.study import log_mismatch, log_lines
from vlib.both import wasm_outs, cpp_outs

FLAGS = [["--O0"], ["--O1"], ["--O2"], ["--O2", "--sanity_check", "1"]]
PIECES = ["msg", "a b", "x=", "%d %s %n", "100%", "%", "//", "/* c */", "{}", "'q'", "`", "\t", "  two", "end ", " ", "", "é", "✓ ok", "日本", "\\n", "\\t",
          "\\\\", "\\", "\\d", "??/", "#", "@$", "<tag>", "&amp;", "a;b", "$(x)", "[1,2]", "\"".replace("\"", "''"), "0", "12", "-1", "0x10", "=>", "\\x41", "\\0"]


class GenL(GenR):
    def string(self):
        r = self.r
        k = r.random()
        if k < .35: return r.choice(PIECES)
        if k < .8: s = "".join(r.choice(PIECES) for _ in range(r.randrange(2, 6)))
        elif k < .9: s = "".join(chr(r.choice([r.randrange(32, 127), r.randrange(161, 0x250), r.randrange(0x3040, 0x3090)])) for _ in range(r.randrange(1, 30)))
        else: s = r.choice(["ab", "é", "x y ", "%"]) * r.choice([60, 100, 119, 120, 121, 200, 239, 240, 241, 300])
        return s.replace('"', "'")

    def logst(self, c):
        r = self.r
        its = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            k = r.random()
            if k < .5: its.append(self.string())
            else: its.append(self.any(c, r.randrange(0, 3)))
        # a line that is a line break alone ends the line for the JavaScript caller
        its = [("nl" if x == "\\n" else x) if isinstance(x, str) else x for x in its]
        return ("log", its)

    def fn_body(self, c, d):
        out = GenR.fn_body(self, c, d)
        if not c.infn and self.r.random() < .5: out.append(self.logst(c))
        return out

    def gen_logf(self):
        """functions that log; they are called with signal arguments as whole right sides only"""
        r = self.r
        f = self.fresh("lf")
        c = Ctx(); c.infn = True; c.anyv = ["p0", "p1"]
        body = [self.logst(c)] + GenR.fn_body(self, c, 1)
        c.known.append("i")
        body += [("for", ("let", "i", (), N(0)), B("<", Vr("i"), B("&", Vr("p0"), N(r.choice([1, 3])))), ("inc", Vr("i"), "++"), [self.logst(c)])]
        c.known.pop()
        if r.random() < .5: body.append(("if", B(r.choice(["<", "=="]), Vr("p1"), N(2)), [self.logst(c), ("ret", Vr("p0"))], [self.logst(c)]))
        body += [self.logst(c), ("ret", self.any(c, 2))]
        self.P.add_f(f, ["p0", "p1"], body)
        self.logf.append(f)

    def program(self):
        self.logf = []
        for _ in range(self.r.randrange(0, 3)): self.gen_logf()
        return GenR.program(self)

    def stmt(self, c, sizes):
        r = self.r
        k = r.random()
        if k < .3: return [self.logst(c)]
        if k < .4:
            i = self.fresh("i")
            c2 = self.inner(c); c2.known.append(i)
            return [("for", ("let", i, (), N(0)), B("<", Vr(i), N(r.randrange(1, 4))), ("inc", Vr(i), "++"), [self.logst(c2)])]
        s = self.sig(c)
        if k < .48 and self.logf and s:
            e = ("call", r.choice(self.logf), (s, self.sig(c)))
            if r.random() < .5:
                v = self.fresh("v"); c.anyv.append(v); return [("let", v, (), e)]
            v = self.fresh("s"); c.sigs.append(Ref(v)); return [("sig", "", (), v, (), None, ("<--", e))]
        if k < .56:
            return [("if", self.any(c, 1), [self.logst(c)], [self.logst(c)] if r.random() < .7 else None)]
        return GenR.stmt(self, c, sizes)


@guarded
def job(a, res):
    c = make_case(a["seed"], a["prime"], dict(a["opts"], rf=.06), 5, gen=GenL)
    if c is None:
        res.cnt("outside_model"); return
    res.ctx["source"] = c.text
    key = "%s/%s/%s" % (a["seed"], a["prime"], " ".join(a["flags"]))
    if not compiled(a, res, c.text, a["flags"] + ["--wasm"] + (["-c"] if a["cpp"] else [])): return
    outs = [wasm_outs(a["dir"], c.inputs)]
    if a["cpp"]: outs.append(cpp_outs(a["dir"], c.inputs, a["cache"], res))
    for o in outs:
        for inp, it, fail, x in zip(c.inputs, c.refs, c.fails, o):
            if x is None: continue
            if fail is not None and x.tag != "WASM": continue     # buffered output is lost on refusal
            if (x.w is None) != (fail is not None): res.cnt("other_outcome"); continue
            if fail is not None and any(all(not (s[0] == "sig" and s[1] == "input") for s in t.body) for t in c.prog.templates.values()): continue
            res.ev()
            m = log_mismatch(it, x.logs)
            if m: res.viol(key + "/log", "%s: %s" % (x.tag, m), input=inp, printed=x.logs[:40])
            n = len(it.logs)
            res.cnt("log_statements_executed", n); res.cnt("lines_of_refused_runs" if fail else "lines_of_accepted_runs", n)
            if n: res.seen("%s/%s/%s" % (key, hash(str(inp)) & 0xffffff, x.tag), {"seed": a["seed"], "back end": x.tag, "lines": log_lines(it)[:3]})


PROBES = {
    # a call among the items of a log that logs itself: its line goes into the middle of the outer one
    "log-in-call-in-log": ("""pragma circom 2.1.6;
function f(x) { log("inner"); return x + 1; }
template A() { signal input x; signal output y; y <== x; log("outer", f(x)); }
component main = A();""", {"x": "3"}, ["inner", "outer 4"]),
}


@guarded
def probe(a, res):
    text, inp, want = PROBES[a["key"]]
    res.ctx["source"] = text
    if not compiled(a, res, text, ["--wasm", "-c"]): return
    for o in (wasm_outs(a["dir"], [inp])[0], cpp_outs(a["dir"], [inp], a["cache"], res)[0]):
        if o is None: continue
        res.ev(); res.cnt("probes")
        if o.logs != want:
            res.viol(a["key"], "%s prints %s, expected %s" % (o.tag, o.logs, want), input=inp)


def body(c):
    c.rule = "a (program, flags, input, back end) with at least one executed log whose lines were compared with the program's"
    cache = c.sub("cache")
    prof = {k: v for k, v in PROFILES.items() if k != "par"}

    def items():
        for a in stream(c, 2400, 100000, FLAGS, prof):
            a.update(cache=cache, cpp=a["k"] % 8 in (2, 5))
            yield a
    c.absorb(pmap(probe, [dict(key=k, prime="bn128", cache=cache, dir=os.path.join(c.scratch, k)) for k in PROBES]))
    c.absorb(pmap(job, items(), deadline=c.budget(45, 1200)))
    c.assumptions.append("components without inputs log at an unspecified position relative to their parent: their lines are compared as a multiset")
    c.assumptions.append("functions that log are called with arguments unknown at compile time: the compiler may evaluate other calls itself")
    c.assumptions.append("no item of a log is a line break alone (the JavaScript interface uses it to end the line)")


if __name__ == "__main__":
    main("P13", body)
