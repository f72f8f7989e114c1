"""P03: every witness a generated program outputs satisfies the constraints emitted with it."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap
from vlib.case import make_case, guarded
from vlib.drive import stream, compiled
from vlib.files import read_r1cs, unsatisfied
from vlib.wit import Wasm, build_cpp, run_cpp

FLAGS = [["--O0"], ["--O1"], ["--O2"], ["--O2"], ["--O2round", "1"], ["--O2round", "2"], ["--O2round", "3"],
         ["--O2", "--use_old_simplification_heuristics"], ["--O1", "--inspect"], ["--O2", "--no_asm"],
         ["--O2", "--verbose"], ["--O1", "--sanity_check", "1"]]


def check_w(res, key, tag, R, w, inp):
    res.ev(); res.cnt("witnesses_" + tag); res.cnt("constraints_evaluated", len(R.cons))
    if len(w) != R.nwires:
        res.viol(key + "/size", "%s witness has %d entries, the constraint system %d wires" % (tag, len(w), R.nwires), input=inp); return
    if w[0] != 1:
        res.viol(key + "/one", "%s witness starts with %d" % (tag, w[0]), input=inp); return
    bad = unsatisfied(R.cons, w, R.p)
    if bad:
        res.viol(key + "/unsat", "%s witness violates constraint %d of %d" % (tag, bad[0], len(R.cons)), input=inp)


@guarded
def job(a, res):
    c = make_case(a["seed"], a["prime"], a["opts"], 3)
    if c is None:
        res.cnt("outside_model"); return
    res.ctx["source"] = c.text
    key = "%s/%s/%s" % (a["seed"], a["prime"], " ".join(a["flags"]))
    if not compiled(a, res, c.text, a["flags"] + ["--r1cs", "--wasm"] + (["-c"] if a["cpp"] else [])): return
    R = read_r1cs(a["dir"] + "/c.r1cs")
    for inp, f, w in zip(c.inputs, c.fails, Wasm.get().run(a["dir"], "c", c.inputs)):
        if f is not None or w["w"] is None: res.cnt("refused"); continue
        check_w(res, key, "wasm", R, w["w"], inp)
        res.seen("%s/%s" % (key, hash(str(inp)) & 0xffffff), {"seed": a["seed"], "flags": a["flags"], "constraints": len(R.cons), "wires": R.nwires})
    if a["cpp"]:
        exe = build_cpp(a["dir"], "c", a["cache"])
        for inp, f in zip(c.inputs, c.fails):
            if f is not None: continue
            x = run_cpp(exe, inp)
            if x["timeout"]: res.inc("C++ timeout"); continue
            if x["w"] is None: res.cnt("cpp_refused"); continue
            check_w(res, key, "cpp", R, x["w"], inp)


def body(c):
    c.rule = "a (program, prime, flags, input) whose output witness was put into all emitted constraints"
    cache = c.sub("cache")

    def items():
        for a in stream(c, 2200, 200000, FLAGS):
            a.update(cpp=a["k"] % 9 == 4, cache=cache)
            yield a
    c.absorb(pmap(job, items(), deadline=c.budget(50, 1500)))
    c.assumptions.append("programs are generated so that every `<--` value agrees with the constraints stated for it, else the input is one the program refuses")


if __name__ == "__main__":
    main("P03", body)
