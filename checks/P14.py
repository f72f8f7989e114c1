"""P14: the r1cs file is well formed and agrees with the printed summary and the program."""
import os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap
from vlib.case import make_case, guarded, PROFILES
from vlib.drive import stream, compiled
from vlib.field import Field, PRIMES
from vlib.files import read_r1cs, Bad
from vlib.iface import IfaceGen
from vlib.sysgen import SysGen

FLAGS = [["--O0"], ["--O1"], ["--O2"], ["--O2round", "1"], ["--O1", "--inspect"], ["--O2", "--use_old_simplification_heuristics"], [], ["--O0", "--sym", "--json"]]
LINE = re.compile(r"^(template instances|non-linear constraints|linear constraints|public inputs|private inputs|public outputs|wires|labels): (\d+)(?: \((\d+|none) belong to witness\))?$", re.M)


def summary(text):
    out = {}
    for k, v, w in LINE.findall(text):
        if k in out: raise Bad("the summary prints '%s' twice" % k)
        out[k] = int(v)
        if k == "private inputs": out["in witness"] = int(v) if w == "" else 0 if w == "none" else int(w)
    return out


@guarded
def job(a, res):
    rng = random.Random(a["seed"])
    nsig = None
    kind = a["kind"]
    if kind == "program":
        c = make_case(a["seed"], a["prime"], a["opts"], 1)
        if c is None:
            res.cnt("outside_model"); return
        text = c.text
        nsig = sum(1 for _ in c.it.vals)
        ninst = None
    elif kind == "iface":
        text = IfaceGen(rng).text(rng)
    else:
        text = SysGen(rng, Field(a["prime"]), rng.choice(SysGen.MODES)).text()
    res.ctx["source"] = text
    key = "%s/%s/%s/%s" % (kind, a["seed"], a["prime"], " ".join(a["flags"]))
    r = compiled(a, res, text, a["flags"] + ["--r1cs"])
    if not r: return
    R = read_r1cs(a["dir"] + "/c.r1cs")
    S = summary(r.text)
    p = PRIMES[a["prime"]]
    res.ev(); res.cnt("bytes_checked", os.path.getsize(a["dir"] + "/c.r1cs")); res.cnt("constraints_checked", len(R.cons))

    def need(k, got, want):
        res.cnt("facts_checked")
        if got != want: res.viol(key + "/" + k, "%s: %s is %s, expected %s" % (" ".join(a["flags"]), k, got, want))
    need("prime", R.p, p)
    need("field size", R.n8, (p.bit_length() + 63) // 64 * 8)
    if sorted(R.sections) != [1, 2, 3]: need("sections", sorted(R.sections), [1, 2, 3])
    need("repeated labels in the wire map", len(set(R.labels)), len(R.labels))
    need("label of wire 0", R.labels[0], 0)
    need("labels out of range", [l for l in R.labels if l >= R.nlabels], [])
    if nsig is not None: need("nLabels", R.nlabels, nsig + 1)
    need("order of labels", R.labels == sorted(R.labels), True)
    io = R.npubout + R.npubin
    need("io wires", R.nwires > io, True)
    prv = [l for l in R.labels if io < l <= io + R.nprvin]
    # a constraint written with an empty factor may be counted either way, depending on how far it was normalised
    lin0, lin1 = sum(1 for A, B, C in R.cons if not A and not B), sum(1 for A, B, C in R.cons if not A or not B)
    linear = S.get("linear constraints", -1)
    need("printed linear constraints in %d..%d" % (lin0, lin1), lin0 <= linear <= lin1, True)
    for k, want in (("non-linear constraints", len(R.cons) - linear), ("public inputs", R.npubin), ("private inputs", R.nprvin),
                    ("in witness", len(prv)), ("public outputs", R.npubout), ("wires", R.nwires), ("labels", R.nlabels)):
        need("printed " + k, S.get(k), want)
    for k, (A, B, C) in enumerate(R.cons):
        if any(v == 0 for d in (A, B, C) for v in d.values()): res.cnt("constraints_with_zero_coefficient")
        if not A and not B and not [w for w in C if w]:
            if not C or not C.get(0): need("empty constraint", k, None)
    res.seen(key, {"seed": a["seed"], "flags": a["flags"], "prime": a["prime"], "wires": R.nwires, "constraints": len(R.cons), "labels": R.nlabels})


def body(c):
    c.rule = "an r1cs file read byte by byte whose header, constraints, wire map and printed summary were checked"

    def items():
        for a in stream(c, 6000, 300000, FLAGS):
            a["kind"] = ["program", "sys", "program", "iface"][a["k"] % 4]
            yield a
    c.absorb(pmap(job, items(), deadline=c.budget(35, 1000)))


if __name__ == "__main__":
    main("P14", body)
