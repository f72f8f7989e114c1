"""Runs of the programs of mixgen and fungen: main's outputs against the computed ones."""
import random
from .both import wasm_outs, cpp_outs
from .core import circom
from .field import PRIMES
from .fungen import Fun
from .mixgen import Mix


def mix(a, res, cpp=False, need=None, parallel=False):
    """a: seed, prime, dir, (cache when cpp)"""
    r = random.Random(a["seed"])
    if a["seed"] % 5 < 2 and need is None and not parallel: m = Fun(r, PRIMES[a["prime"]]); what = "function_runs"
    else: what, m = "component_array_runs", None
    for _ in range(0 if m else 50):
        m = Mix(r, PRIMES[a["prime"]], parallel=parallel)
        if need is None or need(m): break
    else:
        if not m: return
    res.ctx["source"] = m.text
    fl = [r.choice(["--O0", "--O1", "--O2"])] + (["-c"] + (["--no_asm"] if r.random() < .5 else []) if cpp else [])
    key = "mix/%d/%s/%s" % (a["seed"], a["prime"], " ".join(fl))
    q = circom(m.text, fl + ["--wasm", "--prime", a["prime"]], a["dir"])
    if q.timeout: res.inc("compile timeout"); return
    if q.rc:
        if cpp: res.cnt("rejected_by_compiler")
        else: res.viol(key + "/rejected", "valid program rejected: %s" % q.text[-400:])
        return
    xs = [m.inputs() for _ in range(2)]
    inp = [{"x": [str(v) for v in x]} for x in xs]
    runs = wasm_outs(a["dir"], inp)
    runs = [(x, o, "expected") for x, o in zip(xs, runs)] if not cpp else [
        (x, o, w) for x, o, w in zip(xs, cpp_outs(a["dir"], inp, a["cache"], res), runs)]
    for x, o, want in runs:
        if o is None: continue
        res.ev()
        if cpp:
            if (o.w is None) != (want.w is None): res.viol(key + "/outcome", "%s but %s" % (want.brief(), o.brief()), input=x); continue
            if o.w is None: continue
            if o.w != want.w:
                res.viol(key + "/witness", "witnesses differ first at wire %s" % [i for i, (p, q) in enumerate(zip(o.w, want.w)) if p != q][:1], input=x); continue
        else:
            e = m.outputs(x)
            if o.w is None: res.viol(key + "/refused", "witness refused: %s" % str(o.err)[:300], input=x); continue
            if o.w[1:1 + len(e)] != e:
                res.viol(key + "/value", "outputs %s of main have another value" % [i for i, (p, q) in enumerate(zip(o.w[1:], e)) if p != q][:5], input=x); continue
            res.cnt("signal_values_compared", len(e))
        res.cnt(what)
        res.seen("%s/%s" % (key, hash(str(x)) & 0xffffff), {"seed": a["seed"], "prime": a["prime"], "outputs": len(o.w)})
