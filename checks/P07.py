"""P07: the documented normal form of each simplification level, and monotone sizes."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.alg import System
from vlib.core import main, pmap
from vlib.case import make_case, guarded, PROFILES
from vlib.drive import compiled, label_polys, PS
from vlib.field import Field
from vlib.files import read_r1cs
from vlib.sysgen import SysGen


def equalities(polys, p):
    """(equalities between two signals, signal = constant) among the constraints"""
    eq, const = [], []
    for q in polys:
        ks = [k for k in q if k]
        if any(len(k) > 1 for k in ks) or not ks: continue
        if len(ks) == 1: const.append(ks[0][0])
        elif len(ks) == 2 and () not in q and (q[ks[0]] + q[ks[1]]) % p == 0: eq.append((ks[0][0], ks[1][0]))
    return eq, const


def classes(eq):
    par = {}

    def find(x):
        par.setdefault(x, x)
        while par[x] != x:
            par[x] = par[par[x]]; x = par[x]
        return x
    for a, b in eq: par[find(a)] = find(b)
    out = {}
    for x in list(par): out.setdefault(find(x), set()).add(x)
    return out, find


@guarded
def job(a, res):
    if a["mode"] == "program":
        c = make_case(a["seed"], a["prime"], a["opts"], 1)
        if c is None:
            res.cnt("outside_model"); return
        text = c.text
    else:
        text = SysGen(random.Random(a["seed"]), Field(a["prime"]), a["mode"]).text()
    res.ctx["source"] = text
    key = "%s/%s/%s" % (a["mode"], a["seed"], a["prime"])

    def get(fl):
        if not compiled(a, res, text, fl + ["--r1cs"]): return None
        return read_r1cs(a["dir"] + "/c.r1cs")
    R0 = get(["--O0"])
    if R0 is None: return
    P0 = label_polys(R0)
    public = set(R0.labels[1:1 + R0.npubout + R0.npubin])
    contradictory = System(P0, R0.p, lambda x: x).contradiction
    sizes = {"O0": len(R0.cons)}
    R1 = get(["--O1"])
    if R1 is not None:
        P1 = label_polys(R1)
        sizes["O1"] = len(P1)
        res.ev()
        kept = set(R1.labels)
        # a product with a vanishing side is stated as a product, not as an equality
        eq, const = equalities([q for q, c in zip(P0, R0.cons) if not c[0] and not c[1]], R0.p)
        cl, find = classes(eq)
        cc = {find(x) for x in const}
        for x in const: cl.setdefault(find(x), {x})
        for root, mem in cl.items():
            prv = [x for x in mem if x not in public and x in kept]
            res.cnt("equality_classes")
            # a class tied to a constant or to a public signal keeps no private member,
            # any other class keeps at most one
            tied = root in cc or any(x in public for x in mem)
            if len(prv) > (0 if tied else 1):
                res.viol(key + "/O1", "--O1 keeps signals with labels %s although the program equates them with %s" % (
                    sorted(prv)[:4], "a constant" if root in cc else "a public signal" if tied else "each other"))
                break
        if not contradictory:
            e1, c1 = equalities(P1, R1.p)
            orig = {frozenset(x) for x in eq} | {frozenset([x]) for x in const}
            for x in [frozenset(t) for t in e1] + [frozenset([t]) for t in c1]:
                if x in orig and not x <= public:
                    res.viol(key + "/O1left", "--O1 keeps the equality of signals with labels %s" % sorted(x)); break
        if len(cl): res.seen(key + "/O1", {"seed": a["seed"], "mode": a["mode"], "classes": len(cl), "constraints": [len(P0), len(P1)]})
    for name, fl in [("O2", ["--O2"]), ("O2old", ["--O2", "--use_old_simplification_heuristics"])]:
        R2 = get(fl)
        if R2 is None: continue
        P2 = label_polys(R2)
        sizes[name] = len(P2)
        res.ev()
        for q in P2:
            if all(len(k) < 2 for k in q):
                res.cnt("linear_constraints_left")
                bad = [k[0] for k in q if k and k[0] not in public]
                if bad:
                    res.viol(key + "/" + name, "%s keeps a linear constraint in which the private signal with label %d occurs" % (" ".join(fl), bad[0])); break
        res.seen(key + "/" + name)
    prev = None
    for n in a["rounds"]:
        R2 = get(["--O2round", str(n)])
        if R2 is None: continue
        res.ev()
        sizes["O2round%d" % n] = len(R2.cons)
        res.seen(key + "/round%d" % n)
    order = [x for x in ["O0", "O1"] + ["O2round%d" % n for n in sorted(a["rounds"])] + ["O2"] if x in sizes]
    for x, y in zip(order, order[1:]):
        res.cnt("size_comparisons")
        if sizes[x] < sizes[y]:
            res.viol(key + "/size", "%s gives %d constraints, %s gives %d" % (x, sizes[x], y, sizes[y]))


def body(c):
    c.rule = "a (constraint system, prime, flags) whose simplified form was scanned for the documented normal form"
    n = 900 if c.quick else 60000

    def items():
        for k in range(n):
            mode = "program" if k % 3 == 2 else SysGen.MODES[(k // 3 * 2 + k % 3) % len(SysGen.MODES)]
            prof = sorted(PROFILES)[k % len(PROFILES)]
            yield dict(seed=c.rng.randrange(1 << 40), mode=mode, opts=PROFILES[prof], prime=PS[(k // 4) % 8] if k % 4 == 0 else "bn128",
                       rounds=c.rng.sample([1, 2, 3, 4, 6], 2), dir=os.path.join(c.scratch, str(k)))
    c.absorb(pmap(job, items(), deadline=c.budget(50, 1500)))


if __name__ == "__main__":
    main("P07", body)
