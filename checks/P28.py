"""P28: tags are checked and propagated as documented."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap
from vlib.accept import verdict
from vlib.case import guarded
from vlib.field import PRIMES
from vlib.files import read_sym
from vlib.wit import Wasm
from vlib.taggen import Gen, Illegal, Unspec

FL = [["--O0"], ["--O1"], ["--O2"], ["--O0", "--inspect"], ["--O1", "--verbose"]]


def tree(a, res, r):
    """many nested buses, few tags: main is refused exactly when one of its inputs has a tag inside"""
    n = r.choice([2, 3, 4, 6])
    bs, text, dens = [], "pragma circom 2.1.0;\n", r.choice([0, .04, .1])
    for k in range(n):
        fs, tg = [], False
        for j in range(r.choice([1, 2, 3, 6])):
            b = r.randrange(k) if k and r.random() < .7 else None
            t = r.random() < dens
            d = r.choice(["", "", "[2]"])
            fs.append("  %s %sf%d%s;\n" % ("signal" if b is None else "B%d()" % b, "{ta} " if t else "", j, d))
            tg |= t or (b is not None and bs[b])
        text += "bus B%d() {\n%s}\n" % (k, "".join(fs))
        bs.append(tg)
    ins, bad = "", False
    for j in range(r.choice([1, 2, 3])):
        b = r.choice([None] + list(range(n)) * 2)
        t = r.random() < dens / 2
        ins += "  %s %si%d%s;\n" % ("signal input" if b is None else "input B%d()" % b, "{tb} " if t else "", j, r.choice(["", "[2]"]))
        bad |= t or (b is not None and bs[b])
    b = r.choice([None] + list(range(n)))
    text += "template Main() {\n%s  signal output o;\n  signal {tc} m;\n  m <== 1;\n  o <== m + 1;\n}\ncomponent main = Main();\n" % ins
    fl = r.choice(FL) + ["--r1cs", "--sym"]
    v, x = verdict(text, fl, a["dir"] + "/a")
    if v is None: res.inc("compiler out of time or memory"); return
    res.ev()
    if (v == "ok") == bad or v == "crash":
        res.viol("%d/main" % a["seed"], "%s although the inputs of main have %s tags" % (v, "" if bad else "no"), program=text, flags=fl); return
    res.cnt("main_rejected" if bad else "main_accepted"); res.seen(("main", a["seed"]), {"buses": n, "verdict": v})


@guarded
def job(a, res):
    r = random.Random(a["seed"])
    if r.random() < .12: return tree(a, res, r)
    pn = r.choice(["bn128", "bn128", "goldilocks", "bls12381"])
    mode = r.random()
    for _ in range(12):
        g = Gen(r, PRIMES[pn])
        if mode > .8: break
        try: g.mono(); break
        except (Illegal, Unspec): pass
    fault = g.fault() if mode > .45 else None
    text = g.text()
    try: mono, inst = g.mono(); why = None
    except Illegal as x: why = str(x)
    except Unspec: res.cnt("unspecified"); return
    wit = r.random() < .12
    fl = r.choice(FL) + ["--prime", pn, "--r1cs", "--sym"] + (["--wasm"] if wit else [])
    v, x = verdict(text, fl, a["dir"] + "/a")
    if v is None: res.inc("compiler out of time or memory"); return
    res.ev()
    if v == "crash": res.viol("%d/crash" % a["seed"], "the compiler crashes: %s" % x.err[-300:], program=text, flags=fl); return
    if (v == "ok") != (why is None):
        res.viol("%d/verdict" % a["seed"], "%s although %s: %s" % ({"ok": "accepted", "rej": "rejected"}[v], why or "every tag is as required", x.text.strip()[-400:] if v != "ok" else ""), program=text, flags=fl, fault=fault); return
    if why: res.cnt("rejected"); res.seen(("rej", a["seed"]), {"fault": fault, "reason": why}); return
    res.cnt("accepted"); res.cnt("instances", inst)
    v, y = verdict(mono, fl, a["dir"] + "/b")
    if v is None: res.inc("compiler out of time or memory"); return
    if v != "ok": res.viol("%d/plain" % a["seed"], "the program without tags is not accepted: %s" % y.text.strip()[-400:], program=mono, flags=fl, tagged=text); return
    o = [open(a["dir"] + d + "/c.r1cs", "rb").read() for d in ("/a", "/b")]
    s = [[(e[0], e[1], e[3]) for e in read_sym(a["dir"] + d + "/c.sym")] for d in ("/a", "/b")]
    if o[0] != o[1] or s[0] != s[1]: res.viol("%d/same" % a["seed"], "the constraints are not those of the program without tags", program=text, plain=mono, flags=fl); return
    if wit:
        ins = [g.inputs(r) for _ in range(3)]
        w = [Wasm.get().run(a["dir"] + d, "c", ins) for d in ("/a", "/b")]
        for i, x, y in zip(ins, *w):
            if x["w"] is None or x["w"] != y["w"]: res.viol("%d/witness" % a["seed"], "the witness is not that of the program without tags: %s" % (x["err"] or y["err"]), program=text, plain=mono, flags=fl, input=i); return
            res.cnt("witnesses_compared")
    res.cnt("systems_compared"); res.seen(("acc", a["seed"]), {"instances": inst, "flags": " ".join(fl), "signals": len(s[0])})


def body(c):
    c.rule = "a program with tags whose acceptance was decided by the model and confirmed, or whose constraints equal those of the program without tags"

    def items():
        for k in range(60000 if c.quick else 600000):
            yield dict(seed=c.rng.randrange(1 << 40), dir=c.scratch + "/%d" % k)
    c.absorb(pmap(job, items(), deadline=c.budget(float(os.environ.get("B","35")), 1200)))


if __name__ == "__main__":
    main("P28", body)
