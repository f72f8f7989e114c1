"""P09: violated assertions and constraint equalities are refused, satisfied ones accepted,
at every sanity-check level, by both witness programs."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap
from vlib.case import make_case, guarded, PROFILES, as_str
from vlib.drive import stream, compiled
from vlib.files import read_sym
from vlib.genr import GenR, balanced_inputs
from vlib.study import sym_names, witness_mismatch, Mismatch
from vlib.both import wasm_outs, cpp_outs

FLAGS = [["--O0"], ["--O1"], ["--O2"]]
SANITY = [None, "0", "1", "2", "3"]


@guarded
def job(a, res):
    opts = dict(a["opts"]); opts["rf"] = .5
    c = make_case(a["seed"], a["prime"], opts, 1, gen=GenR)
    if c is None:
        res.cnt("outside_model"); return
    res.ctx["source"] = c.text
    rng = random.Random(a["seed"])
    g = GenR(rng, c.F, **opts)
    inputs = balanced_inputs(c, rng, g, 8 if a["cpp"] else 16)
    s = a["sanity"]
    key = "%s/%s/%s/%s" % (a["seed"], a["prime"], " ".join(a["flags"]), s)
    fl = a["flags"] + (["--sanity_check", s] if s else []) + ["--wasm", "--sym"] + (["-c"] if a["cpp"] else [])
    if not compiled(a, res, c.text, fl): return
    sym = read_sym(a["dir"] + "/c.sym")
    texts = [as_str(i) for i in inputs]
    outs = [wasm_outs(a["dir"], texts)]
    if a["cpp"]: outs.append(cpp_outs(a["dir"], texts, a["cache"], res))
    for k, inp in enumerate(inputs):
        it, fail = c.ref(inp, constraints=(s != "0"))
        for o in outs:
            o = o[k]
            if o is None: continue
            res.ev()
            if fail is not None:
                res.cnt("to_refuse_" + fail.kind)
                if o.w is not None:
                    res.viol(key + "/accepted", "%s although an %s of the program fails" % (o.brief(), fail.kind), input=texts[k]); continue
                if o.wtns: res.viol(key + "/file", "%s but writes a witness file" % o.brief(), input=texts[k])
            else:
                res.cnt("to_accept")
                if o.w is None:
                    res.viol(key + "/refused", "%s although every check of the program holds" % o.brief(), input=texts[k]); continue
                try:
                    names, vals, _ = sym_names(sym, it)
                except Mismatch as e:
                    res.viol(key + "/names", str(e)); return
                m = witness_mismatch(o.w, names, vals)
                if m: res.viol(key + "/value", "%s: signal %s is %s, the program says %s" % ((o.tag,) + m), input=texts[k])
            res.seen("%s/%s/%s" % (key, k, o.tag), {"seed": a["seed"], "sanity": s, "back end": o.tag, "refused": fail.kind if fail else None})


def body(c):
    c.rule = "a (program, flags, sanity level, back end, input) whose outcome was compared with the checks the program states"
    cache = c.sub("cache")

    def items():
        for a in stream(c, 2400, 100000, FLAGS):
            a.update(cache=cache, sanity=SANITY[a["k"] % 5], cpp=a["k"] % 8 in (3, 5) and a["prof"] != "par")
            yield a
    c.absorb(pmap(job, items(), deadline=c.budget(55, 1500)))


if __name__ == "__main__":
    main("P09", body)
