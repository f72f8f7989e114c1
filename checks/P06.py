"""P06: wires follow main's declarations; header counts; public list."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap
from vlib.case import guarded, PROFILES
from vlib.drive import compiled, PS
from vlib.files import read_r1cs, read_sym
from vlib.iface import IfaceGen

FLAGS = [["--O0"], ["--O1"], ["--O2"], ["--O2round", "1"], ["--O0", "--inspect"], ["--O1", "--wasm", "-c"]]


@guarded
def job(a, res):
    rng = random.Random(a["seed"])
    g = IfaceGen(rng)
    key = "%s" % a["seed"]
    first = None
    for fl in a["flags"]:
        text = g.text(rng)
        res.ctx["source"] = text
        if not compiled(a, res, text, fl + ["--r1cs", "--sym"]): return
        R, sym = read_r1cs(a["dir"] + "/c.r1cs"), read_sym(a["dir"] + "/c.sym")
        res.ev()
        name = {l: n for l, w, _, n in sym}
        label_of = {n: l for l, w, _, n in sym}
        outs, pub, prv = g.outs(), g.pub(), g.prv()
        kept = set(R.labels)
        want = outs + pub + [x for x in prv if label_of.get(x) in kept]
        got = [name.get(l) for l in R.labels[1:1 + len(want)]]
        def bad(what): res.viol("%s/%s" % (key, what[:20]), "%s: %s" % (" ".join(fl), what), simplification=fl)
        if [l for x in outs + pub + prv for l in [label_of.get(x)] if l is None]:
            bad("input or output signal of main missing from the symbol file")
            continue
        if R.npubout != len(outs): bad("nPubOut is %d, main has %d output values" % (R.npubout, len(outs)))
        if R.npubin != len(pub): bad("nPubIn is %d, main has %d public input values" % (R.npubin, len(pub)))
        if got != want: bad("wires are %s..., expected %s..." % first_diff(got, want))
        if R.nprvin != len(prv): bad("nPrvIn is %d, main has %d private input values" % (R.nprvin, len(prv)))
        if fl[0] == "--O0" and len(want) != len(outs + pub + prv): bad("--O0 eliminates private inputs")
        if R.labels[0] != 0: bad("wire 0 has label %d" % R.labels[0])
        # what only the order of the public list or the flags differ in has the same interface
        sig = (outs, pub, [x for x in prv])
        if first is None: first = sig
        res.cnt("wires_checked", len(want))
        res.seen((key, tuple(fl)), {"seed": a["seed"], "flags": fl, "outputs": len(outs), "public": len(pub), "private": len(prv)})


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y: return a[max(0, i - 1):i + 2], b[max(0, i - 1):i + 2]
    return a[-2:], b[-2:]


def body(c):
    c.rule = "a (main component, public list, flags) whose wires were compared one by one with its declarations"
    n = 3000 if c.quick else 200000

    def items():
        for k in range(n):
            yield dict(seed=c.rng.randrange(1 << 40), prime=PS[(k // 4) % 8] if k % 4 == 0 else "bn128",
                       flags=c.rng.sample(FLAGS, 3), dir=os.path.join(c.scratch, str(k)))
    c.absorb(pmap(job, items(), deadline=c.budget(35, 1200)))


if __name__ == "__main__":
    main("P06", body)
