"""P05: the simplified system is exactly the projection of the unsimplified one."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.alg import compare
from vlib.core import circom, main, pmap
from vlib.case import make_case, guarded, PROFILES
from vlib.drive import compiled, label_polys, PS
from vlib.field import Field
from vlib.files import read_r1cs
from vlib.sysgen import SysGen

FLAGS = [["--O1"], ["--O2"], ["--O2round", "1"], ["--O2round", "2"], ["--O2round", "3"],
         ["--O2", "--use_old_simplification_heuristics"], ["--O2round", "1", "--use_old_simplification_heuristics"]]


@guarded
def job(a, res):
    if a["mode"] == "program":
        c = make_case(a["seed"], a["prime"], a["opts"], 1)
        if c is None:
            res.cnt("outside_model"); return
        text = c.text
    else:
        text = SysGen(random.Random(a["seed"]), Field(a["prime"]), a["mode"]).text()
    res.ctx["source"] = text
    key = "%s/%s/%s" % (a["mode"], a["seed"], a["prime"])
    if not compiled(a, res, text, ["--O0", "--r1cs"]): return
    R0 = read_r1cs(a["dir"] + "/c.r1cs")
    P0 = label_polys(R0)
    pub = set(R0.labels[1:1 + R0.npubout + R0.npubin])
    for fl in a["flags"]:
        r = circom(None, fl + ["--r1cs", "--prime", a["prime"]], a["dir"])
        if r.timeout: res.inc("simplification timeout"); continue
        if r.rc:
            res.viol(key + "/accepted/" + " ".join(fl), "%s: no simplified system although --O0 gives one: %s" % (" ".join(fl), r.text.strip()[-400:]), simplification=fl); continue
        R1 = read_r1cs(a["dir"] + "/c.r1cs")
        res.ev(); res.cnt("systems_compared"); res.cnt("constraints_before", len(R0.cons)); res.cnt("constraints_after", len(R1.cons))
        lost = pub - set(R1.labels)
        if lost:
            res.viol(key + "/public", "%s eliminates public input or output with label %d" % (fl, min(lost)), simplification=fl)
        m, info = compare(P0, label_polys(R1), set(R1.labels), R0.p)
        res.cnt("contradictory" if info["contradiction"] else "consistent")
        if m:
            res.viol(key + "/" + " ".join(fl), "%s: %s" % (" ".join(fl), m), simplification=fl)
        elif R1.nwires < R0.nwires:
            res.cnt("signals_eliminated", R0.nwires - R1.nwires)
            res.seen("%s/%s" % (key, fl), {"seed": a["seed"], "mode": a["mode"], "flags": fl, "wires": [R0.nwires, R1.nwires], "constraints": [len(R0.cons), len(R1.cons)]})


def body(c):
    c.rule = "a (constraint system, prime, simplification flags) in which something was eliminated and the projection compared exactly"
    n = 900 if c.quick else 60000

    def items():
        for k in range(n):
            mode = "program" if k % 3 == 2 else SysGen.MODES[(k // 3 * 2 + k % 3) % len(SysGen.MODES)]
            prof = sorted(PROFILES)[k % len(PROFILES)]
            yield dict(seed=c.rng.randrange(1 << 40), mode=mode, opts=PROFILES[prof], prime=PS[(k // 4) % 8] if k % 4 == 0 else "bn128",
                       flags=FLAGS if mode != "program" else c.rng.sample(FLAGS, 3), dir=os.path.join(c.scratch, str(k)))
    c.absorb(pmap(job, items(), deadline=c.budget(60, 1500)))
    c.assumptions.append("the exact comparison solves what is linear or becomes linear by substitution and compares the spans of the remaining quadratic polynomials")


if __name__ == "__main__":
    main("P05", body)
