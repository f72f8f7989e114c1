"""P02: the witness computed by the generated WASM program is what the program says."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import circom, main, pmap
from vlib.case import make_case, guarded, PROFILES
from vlib.field import PRIMES
from vlib.files import read_sym
from vlib.study import sym_names, witness_mismatch, Mismatch
from vlib.mixrun import mix
from vlib.wit import Wasm


@guarded
def job(a, res):
    if a["mix"]: mix(a, res); return
    c = make_case(a["seed"], a["prime"], a["opts"], 3)
    if c is None:
        res.cnt("outside_model"); return
    res.ctx["source"] = c.text
    key = "%s/%s" % (a["seed"], a["prime"])
    r = circom(c.text, ["--sym", "--wasm", "--prime", a["prime"]] + a["flags"], a["dir"])
    if r.timeout:
        res.inc("compile timeout"); return
    if r.rc:
        res.viol(key + "/rejected", "valid program rejected (%s): %s" % (a["flags"], r.text[-400:]))
        return
    sym = read_sym(a["dir"] + "/c.sym")
    ws = Wasm.get().run(a["dir"], "c", c.inputs, sanity=0)
    for inp, it, fail, w in zip(c.inputs, c.refs, c.fails, ws):
        res.ev()
        if fail is not None:
            res.cnt("refused_inputs")
            if w["w"] is not None:
                res.viol(key + "/accepted", "input accepted although the program refuses it (%s)" % fail, input=inp)
            continue
        if w["w"] is None:
            res.viol(key + "/refused", "witness refused: %s" % str(w["err"])[:300], input=inp)
            continue
        try:
            names, vals, _ = sym_names(sym, it)
        except Mismatch as e:
            res.viol(key + "/names", str(e)); return
        m = witness_mismatch(w["w"], names, vals)
        if m:
            res.viol(key + "/value", "signal %s is %s, the program says %s" % m, input=inp)
        res.cnt("signal_values_compared", sum(1 for x in names if x[1] >= 0))
        res.seen("%s/%s" % (key, hash(str(inp)) & 0xffffff),
                 {"seed": a["seed"], "prime": a["prime"], "flags": a["flags"], "signals": len(names)})


def body(c):
    c.rule = "a (program, prime, flags, input) whose signal values were compared with the reference interpreter"
    end = c.budget(50, 1500)
    primes = sorted(PRIMES)

    def items():
        k = 0
        while True:
            prof = sorted(PROFILES)[k % len(PROFILES)]
            s = c.rng.randrange(1 << 40)
            yield dict(seed=s, prime="bn128" if k % 2 == 0 else primes[(k // 2) % 8], opts=PROFILES[prof],
                       flags=[["--O0"], ["--O1"], ["--O2"]][k % 3], dir=os.path.join(c.scratch, str(k)), mix=k % 7 == 6)
            k += 1
            if k > (2500 if c.quick else 100000): return
    c.absorb(pmap(job, items(), deadline=end))


if __name__ == "__main__":
    main("P02", body)
