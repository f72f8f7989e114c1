"""P08: the C++ program (with assembly, portable) and the WASM program reach the same outcome."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap
from vlib.case import make_case, guarded, PROFILES
from vlib.drive import stream, compiled
from vlib.genr import GenR
from vlib.gen2 import GenX
from vlib.mixrun import mix
from vlib.both import wasm_outs, cpp_outs

FLAGS = [["--O0"], ["--O1"], ["--O2"], ["--O1", "--sanity_check", "0"], ["--O1", "--sanity_check", "1"], ["--O2", "--sanity_check", "3"], ["--O0", "--inspect"]]


@guarded
def job(a, res):
    if a["k"] % 8 == 5: mix(a, res, cpp=True); return
    gen = GenR if a["k"] % 3 == 0 else GenX
    c = make_case(a["seed"], a["prime"], a["opts"], 4, gen=gen)
    if c is None:
        res.cnt("outside_model"); return
    res.ctx["source"] = c.text
    key = "%s/%s/%s" % (a["seed"], a["prime"], " ".join(a["flags"]))
    asm = ["--no_asm"] if a["k"] % 2 else []
    if not compiled(a, res, c.text, a["flags"] + asm + ["-c", "--wasm"]): return
    ref = wasm_outs(a["dir"], c.inputs)
    variants = [cpp_outs(a["dir"], c.inputs, a["cache"], res, tag="C++" + " ".join(asm))]
    if a["k"] % 7 == 0:
        d2 = a["dir"] + "/other"
        if compiled(a, res, c.text, a["flags"] + ([] if asm else ["--no_asm"]) + ["-c", "--wasm"], d=d2):
            variants.append(cpp_outs(d2, c.inputs, a["cache"], res, tag="C++ other"))
            variants.append(wasm_outs(d2, c.inputs))
    loose = any(it.loose_logs for it in c.refs)
    for v in variants:
        for inp, r, o in zip(c.inputs, ref, v):
            if o is None: continue
            res.ev()
            res.cnt("both_succeed" if o.w is not None else "both_refuse")
            if (r.w is None) != (o.w is None):
                res.viol(key + "/outcome", "%s but %s" % (r.brief(), o.brief()), input=inp); continue
            if r.w is None: continue
            if r.w != o.w:
                k = [i for i, (x, y) in enumerate(zip(r.w, o.w)) if x != y]
                res.viol(key + "/witness", "witnesses differ (%d against %d values), first at wire %s: %s is %s, %s is %s" % (
                    len(r.w), len(o.w), k[:1], r.tag, [r.w[i] for i in k[:1]], o.tag, [o.w[i] for i in k[:1]]), input=inp)
            if r.logs != o.logs and not (loose and sorted(r.logs) == sorted(o.logs)):
                res.viol(key + "/logs", "log lines differ: %s against %s" % (r.logs[:6], o.logs[:6]), input=inp)
            res.cnt("log_lines", len(r.logs))
            res.seen("%s/%s" % (key, hash(str(inp)) & 0xffffff), {"seed": a["seed"], "prime": a["prime"], "flags": a["flags"], "values": len(r.w)})


def body(c):
    c.rule = "a (program, prime, flags, input) on which at least two generated programs both produced a witness"
    cache = c.sub("cache")
    prof = {k: v for k, v in PROFILES.items() if k != "par"}

    def items():
        for a in stream(c, 2000, 100000, FLAGS, prof):
            a["cache"] = cache
            yield a
    c.absorb(pmap(job, items(), deadline=c.budget(60, 1500)))


if __name__ == "__main__":
    main("P08", body)
