"""Comparison of two programs that ought to mean the same, through a renaming of their signals."""
import re
from .core import circom
from .files import read_r1cs, read_sym
from .study import file_constraints
from .wit import Wasm


class Sys:
    """what one compilation gave, under canonical names"""

    def __init__(self, d, canon, name="c"):
        self.R = read_r1cs("%s/%s.r1cs" % (d, name))
        sym = read_sym("%s/%s.sym" % (d, name))
        m = canon([s[3] for s in sym])
        self.names = [(l, w, m[n]) for l, w, c, n in sym]
        self.set = {n for _, _, n in self.names}
        wn = {w: n for _, w, n in self.names if w >= 0}
        self.cons = file_constraints(self.R, wn)
        self.wn = wn

    def values(self, w):
        return {n: w[wi] for _, wi, n in self.names if wi >= 0}


def ident(names): return {n: n for n in names}


def compare(res, a, key, what, progs, canons, inputs, flags=("--O0",), run=True, same_logs=False, order=False, quiet_reject=False):
    """progs: two texts; canons: two functions from name lists to canonical names; inputs: list of pairs.
    Reports differences; returns the two systems when everything agrees."""
    S = []
    for i, t in enumerate(progs):
        d = "%s/%d" % (a["dir"], i)
        x = circom(t, list(flags) + ["--r1cs", "--sym", "--prime", a.get("prime", "bn128")] + (["--wasm"] if run else []), d)
        if x.timeout: res.inc("compile timeout"); return
        S.append(x)
    rep = dict(program=progs[0], expanded=progs[1], flags=list(flags))
    if S[0].rc != S[1].rc:
        k = 0 if S[0].rc else 1
        res.viol(key + "/accept", "%s: %s form is rejected, the other accepted: %s" % (what, ("first", "second")[k], S[k].text.strip()[-500:]), **rep); return
    if S[0].rc:
        res.cnt("both_rejected")
        if not quiet_reject: res.viol(key + "/reject", "%s: the program is rejected: %s" % (what, S[0].text.strip()[-400:]), **rep)
        return
    s = [Sys("%s/%d" % (a["dir"], i), c) for i, c in enumerate(canons)]
    res.ev()
    if s[0].set != s[1].set:
        res.viol(key + "/signals", "%s: different signals: %s against %s" % (what, sorted(s[0].set - s[1].set)[:4], sorted(s[1].set - s[0].set)[:4]), **rep); return
    if s[0].cons != s[1].cons:
        d1, d2 = list((s[0].cons - s[1].cons).items())[:2], list((s[1].cons - s[0].cons).items())[:2]
        res.viol(key + "/constraints", "%s: different constraints: %s against %s" % (what, str(d1)[:300], str(d2)[:300]), **rep); return
    R = [x.R for x in s]
    if (R[0].npubout, R[0].npubin, R[0].nprvin) != (R[1].npubout, R[1].npubin, R[1].nprvin):
        res.viol(key + "/interface", "%s: outputs, public and private inputs are %s against %s" % (what, (R[0].npubout, R[0].npubin, R[0].nprvin), (R[1].npubout, R[1].npubin, R[1].nprvin)), **rep); return
    # (simplification may drop private inputs)
    n = R[0].npubout + R[0].npubin + (R[0].nprvin if "--O0" in flags else 0)
    o = [[x.wn[w] for w in range(1, n + 1)] for x in s]
    if o[0] != o[1]:
        res.viol(key + "/order", "%s: outputs and inputs are in another order: %s against %s" % (what, o[0][:8], o[1][:8]), **rep); return
    if run:
        ws = [Wasm.get().run("%s/%d" % (a["dir"], i), "c", [p[i] for p in inputs]) for i in (0, 1)]
        for p, x, y in zip(inputs, *ws):
            res.cnt("witness_pairs")
            if (x["w"] is None) != (y["w"] is None):
                res.viol(key + "/outcome", "%s: one form refuses an input the other accepts: %s" % (what, str(x["err"] or y["err"])[:300]), input=p, **rep); return
            if x["w"] is None: res.cnt("both_refuse"); continue
            v, u = s[0].values(x["w"]), s[1].values(y["w"])
            bad = [q for q in v if v[q] != u[q]]
            if bad:
                res.viol(key + "/witness", "%s: signal %s is %s against %s" % (what, bad[0], v[bad[0]], u[bad[0]]), input=p, **rep); return
            if same_logs and x["log"] != y["log"]:
                res.viol(key + "/log", "%s: different log output" % what, input=p, **rep); return
            res.cnt("signal_values", len(v))
    return s
