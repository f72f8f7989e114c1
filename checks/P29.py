"""P29: a bus is its fields."""
import os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap
from vlib.accept import pair, Wrap, PRAGMA
from vlib.busgen import Gen
from vlib.case import guarded
from vlib.equiv import compare
from vlib.field import PRIMES
from vlib.mixrun import mix


def anon(n): return re.sub(r"\b[A-Z]\w*?_\d+_\d+(?=[.\[])", "ANON", n)


def bform(names): return {n: anon(n) for n in names}


def fform(names): return {n: anon(re.sub(r"__([a-z]\w*?)(?=__|\[|\.|$)", r".\1", re.sub(r"__(\d+)", r"[\1]", n))) for n in names}


def fields(a, res):
    r = random.Random(a["seed"])
    a["prime"] = r.choice(["bn128", "bn128", "goldilocks", "secq256r1"])
    run = r.random() < .5
    # (equalities between inputs would refuse most of them)
    g = Gen(r, not run or r.random() < .3)
    x, y = g.texts()
    ins = [g.inputs(r, PRIMES[a["prime"]]) for _ in range(3)]
    fl = ["--O0"] if r.random() < .75 else [r.choice(["--O1", "--O2"])]
    ok = compare(res, a, "fields/%d" % a["seed"], "program with buses (first) and with separate signals", (x, y), (bform, fform), ins, flags=fl, run=run, same_logs=True)
    if ok: res.seen(("fields", a["seed"]), {"signals": len(ok[0].set), "constraints": sum(ok[0].cons.values()), "buses": len(g.buses)}); res.cnt("signals", len(ok[0].set))


DEFS = """bus A(n) { signal x; signal y[n]; }
bus A2(n) { signal x; signal y[n]; }
bus C(n) { A(n) a; signal w; A(2) v[2]; }
bus D(n) { A2(n) a; signal w; A(2) v[2]; }
function id_(a) { return a; }
template IA(n) { A(n) input in; A(n) output out; out <== in; }
template IV(n) { A(n) input in[2]; A(n) output out[2]; out <== in; }
template IC(n) { C(n) input in; C(n) output out; out <== in; }
"""
DECLS = """  A(2) input a; A(3) input a3; A2(2) input b; C(2) input c; C(3) input c3; D(2) input d; A(2) input va[2]; A(2) input wa[3]; A2(2) input vb[2]; C(2) input vc[2]; signal input s; signal input t[2];
  signal output out; out <== s;
"""
# (good, bad)
TYPES = [
    ("A(2) q_; q_ <== a;", ["A2(2) q_; q_ <== a;", "A(3) q_; q_ <== a;", "A(2) q_; q_ <== a3;", "A(2) q_; q_ <== b;", "A(2) q_; q_ <== s;", "A(2) q_; q_ <== c;", "A(2) q_; q_ <== t;", "A(2) q_; q_ <== va;", "A(2) q_[2]; q_ <== a;", "signal q_; q_ <== a;", "A(2) q_; q_ <== a.x;", "A(2) q_; q_.x <== a;", "A(2) q_; q_.y <== a;", "A(2) q_; q_ <== 5;", "A(2) q_; q_ <== a + 1;", "A(2) q_; q_ <== id_(a);", "var q_ = a;", "A(2) q_ = a;"]),
    ("A(2) q_; q_ <-- a;", ["A2(2) q_; q_ <-- a;", "A(3) q_; q_ <-- a;", "A(2) q_; q_ <-- b;", "A(2) q_; q_ <-- s;", "signal q_; q_ <-- a;", "A(2) q_; q_ <-- 5;"]),
    ("A(2) q_ <== a;", ["A2(2) q_ <== a;", "A(3) q_ <== a;", "A(2) q_ <== b;", "A(2) q_ <== a3;", "A(2) q_ <== s;", "A(2) q_[2] <== a;"]),
    ("A(2) q_[2]; q_ <== va;", ["A(2) q_[2]; q_ <== wa;", "A2(2) q_[2]; q_ <== va;", "A(3) q_[2]; q_ <== va;", "A(2) q_[2]; q_ <== vb;", "A(2) q_[3]; q_ <== va;", "A(2) q_; q_ <== va;", "A(2) q_[2][2]; q_ <== va;"]),
    ("A(2) q_[2]; q_[0] <== va[1]; q_[1] <== a;", ["A(2) q_[2]; q_[0] <== vb[1];", "A(2) q_[2]; q_[0] <== va;", "A(2) q_[2]; q_[1] <== a3;", "A(2) q_[2]; q_[2] <== a;", "A(2) q_[2]; q_[0] <== va[2];", "A(2) q_[2]; q_[0][0] <== a;"]),
    ("C(2) q_; q_ <== c;", ["C(2) q_; q_ <== d;", "D(2) q_; q_ <== c;", "C(3) q_; q_ <== c;", "C(2) q_; q_ <== c3;"]),
    ("C(2) q_; q_.a <== c.a; q_.v <== c.v; q_.w <== c.w;", ["C(2) q_; q_.a <== d.a;", "C(2) q_; q_.a <== c3.a;", "C(2) q_; q_.a <== c;", "C(2) q_; q_.w <== c.a;", "C(2) q_; q_.v <== c.a;", "C(2) q_; q_.v <== wa;", "C(2) q_; q_.a <== b;", "C(2) q_; q_.z <== s;", "C(2) q_; q_.w[0] <== s;", "C(2) q_; q_.a.y[2] <== s;", "C(2) q_; q_.a.y <== s;", "C(2) q_; q_.v.x <== s;", "C(2) q_; q_.v[2] <== a;", "C(2) q_; q_.a.w <== s;"]),
    ("C(2) q_; q_.a <== a; q_.v[1] <== a; q_.v[0] <== c.a; q_.w <== s;", ["C(2) q_; q_.v[1] <== b;", "C(2) q_; q_.v[1] <== a3;", "C(2) q_; q_.v[1] <== c3.a;", "C(3) q_; q_.a <== a;"]),
    ("component k_ = IA(2); k_.in <== a;", ["component k_ = IA(2); k_.in <== b;", "component k_ = IA(2); k_.in <== a3;", "component k_ = IA(3); k_.in <== a;", "component k_ = IA(2); k_.in <== s;", "component k_ = IA(2); k_.in <== va;", "component k_ = IA(2); k_.in.x <== a;", "component k_ = IA(2); k_.in.z <== s;", "component k_ = IA(2); k_.in <-- b;", "component k_ = IA(2); k_.in <== c;", "component k_ = IA(2); k_.in[0] <== a;"]),
    ("component k_ = IV(2); k_.in <== va;", ["component k_ = IV(2); k_.in <== wa;", "component k_ = IV(2); k_.in <== vb;", "component k_ = IV(2); k_.in <== a;", "component k_ = IV(2); k_.in[0] <== b;", "component k_ = IV(2); k_.in[2] <== a;"]),
    ("component k_ = IC(2); k_.in.a <== c.a; k_.in.w <== s; k_.in.v <== va;", ["component k_ = IC(2); k_.in.a <== b;", "component k_ = IC(2); k_.in <== d;", "component k_ = IC(3); k_.in.a <== a;", "component k_ = IC(2); k_.in.v[0] <== b;", "component k_ = IC(2); k_.in.v <== vb;"]),
    ("component k_ = IA(2); k_.in <== a; A(2) q_; q_ <== k_.out;", ["component k_ = IA(2); k_.in <== a; A2(2) q_; q_ <== k_.out;", "component k_ = IA(2); k_.in <== a; A(3) q_; q_ <== k_.out;", "component k_ = IA(2); k_.in <== a; signal q_; q_ <== k_.out;", "component k_ = IA(2); k_.in <== a; signal q_; q_ <== k_.out.z;"]),
    ("A(2) q_ <== IA(2)(a);", ["A(2) q_ <== IA(2)(b);", "A(2) q_ <== IA(3)(a);", "A2(2) q_ <== IA(2)(a);", "A(3) q_ <== IA(2)(a);", "A(2) q_ <== IA(2)(s);", "A(3) q_ <== IA(3)(a);"]),
    ("a === c.a;", ["a === b;", "a === c;", "a === s;", "va === wa;", "a === d.a;", "va === vb;", "c === d;", "a === va;", "a === 1;"]),
    ("signal q_ <== a.x * a.y[1] + vc[1].v[0].y[1];", ["signal q_ <== a * a;", "signal q_ <== a + 1;", "signal q_ <== a.x + a;", "signal q_ <== -a;", "signal q_ <-- a == a;", "signal q_ <-- a ? 1 : 2;", "signal q_ <-- s ? a : a;", "signal q_ <== a.y;", "signal q_ <== a.y[2];", "signal q_ <== vc[2].w;", "signal q_ <== vc[1].v[2].x;", "signal q_ <== vc.w;", "signal q_ <== a.z;", "signal q_ <== s.x;", "signal q_ <== vc[0].a.x.x;"]),
    ("if (a.x == 1) { log(a.y[0]); }", ["if (a) { log(1); }", "log(a);", "assert(a == a);", "while (a) { log(1); }", "var q_[2] = [a, a];", "id_(a) === 1;"]),
    ("var q_ = id_(a.x); var r_[2] = a.y;", ["var q_ = id_(a);", "var q_ = a;", "var r_[2]; r_[0] = a;", "A(2) q_; var r_ = q_;"]),
    ("A(2) q_; (q_.x, q_.y) <== (s, t);", ["A(2) q_; (q_.x, q_.y) <== (s, a);", "A(2) q_; A(2) r_; (q_, r_) <== (a, b);", "A(2) q_; (q_, _) <== (c, a);"]),
]
# (calls of templates and buses)
DEFN = [
    ("A(2) q_;", ["A() q_;", "A(2, 3) q_;", "Z(2) q_;", "IA(2) q_;", "A(s) q_;", "A(-1) q_;"]),
]


def types(a, res):
    r = random.Random(a["seed"])
    n = 0
    for good, bads in r.sample(TYPES + DEFN, 3):
        w = Wrap(r)
        q, k, z = w.name("q"), w.name("k"), w.name("r")
        ren = lambda s: re.sub(r"\bq_", q, re.sub(r"\bk_", k, re.sub(r"\br_", z, s)))
        full = lambda s: PRAGMA + DEFS + "template M(N) {\n" + DECLS + "  " + w.nest(ren(s)) + "\n}\ncomponent main = M(3);\n"
        w.r = random.Random(1)
        bad = r.choice(bads)
        fl = r.choice([["--O0"], ["--O2"], ["--O1", "--r1cs"], ["--inspect"]])
        st = r.getrandbits(30)
        def text(s): w.r = random.Random(st); w.n = 10; return full(s)
        g, b = text(good), text(bad)
        key = "types/%d" % a["seed"]
        if pair(res, a, key, r, g, b, "`%s` instead of `%s`" % (bad, good), flags=fl): res.seen((good, bad), {"allowed": good, "forbidden": bad})
        n += 1


def arrays(a, res):
    a["prime"] = random.Random(a["seed"]).choice(["bn128", "bn128", "goldilocks", "secq256r1"])
    mix(a, res, need=lambda m: "bus " in m.text)


@guarded
def job(a, res): {"fields": fields, "types": types, "arrays": arrays}[a["mode"]](a, res)


def body(c):
    c.rule = "a program with buses whose constraints, interface and witnesses equal those of the program with separate signals; or a mistake in types that was refused; or a program moving buses between components, with its outputs as computed"

    def items():
        for k in range(40000 if c.quick else 400000):
            yield dict(seed=c.rng.randrange(1 << 40), dir=c.scratch + "/%d" % k, mode=["fields", "fields", "arrays", "fields", "fields", "types"][k % 6])
    c.absorb(pmap(job, items(), deadline=c.budget(float(os.environ.get("B", "40")), 1200)))


if __name__ == "__main__":
    main("P29", body)
