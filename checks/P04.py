"""P04: without simplification the constraints are exactly the ones the program states."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap
from vlib.case import make_case, guarded
from vlib.drive import stream, compiled
from vlib.files import read_r1cs, read_sym
from vlib.study import sym_names, expected_constraints, file_constraints, Mismatch


@guarded
def job(a, res):
    c = make_case(a["seed"], a["prime"], a["opts"], 1)
    if c is None:
        res.cnt("outside_model"); return
    res.ctx["source"] = c.text
    key = "%s/%s" % (a["seed"], a["prime"])
    if not compiled(a, res, c.text, a["flags"] + ["--r1cs", "--sym"]): return
    R, sym = read_r1cs(a["dir"] + "/c.r1cs"), read_sym(a["dir"] + "/c.sym")
    # when the sampled input is refused, constraints stated after the point of refusal are
    # still part of the system but not of the reference run
    if c.fails[0] is not None:
        res.cnt("refused_input"); return
    try:
        names, vals, rc = sym_names(sym, c.it)
    except Mismatch as e:
        res.viol(key + "/names", str(e)); return
    wn = {w: n for l, w, _, n in names}
    for w in range(1, R.nwires):
        if w not in wn:
            res.viol(key + "/wire", "wire %d carries no signal" % w); return
    want, got = expected_constraints(c.it, rc), file_constraints(R, wn)
    got.pop((), None)
    res.ev()
    res.cnt("constraints_compared", sum(want.values()))
    if want != got:
        lost, extra = list((want - got).items())[:2], list((got - want).items())[:2]
        res.viol(key + "/constraints", "constraints differ from the program's: missing %s, unexpected %s" % (lost, extra))
    elif want:
        res.seen(key, {"seed": a["seed"], "prime": a["prime"], "profile": a["prof"], "constraints": sum(want.values())})


def body(c):
    c.rule = "a (program, prime) with at least one constraint whose whole system was compared with the stated one"
    fl = [["--O0"]] * 4 + [["--O0", "--inspect"], ["--O0", "--verbose"], ["--O0", "--wasm", "-c"]]
    c.absorb(pmap(job, stream(c, 4000, 400000, fl), deadline=c.budget(45, 1500)))
    c.assumptions.append("a constraint whose polynomial is identically zero may be left out")


if __name__ == "__main__":
    main("P04", body)
