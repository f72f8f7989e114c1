"""P16: JSON exports.  Constraint export = r1cs file, constraint by constraint; substitution
export + simplified system = unsimplified system, exactly; and it completes witnesses."""
import json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.alg import compare
from vlib.both import wasm_outs
from vlib.core import circom, main, pmap
from vlib.case import make_case, guarded, PROFILES
from vlib.drive import compiled, label_polys, PS
from vlib.field import Field
from vlib.files import read_r1cs, Bad
from vlib.sysgen import SysGen

FLAGS = [["--O0"], ["--O1"], ["--O2"], ["--O2round", "1"], ["--O2round", "2"], ["--O2", "--use_old_simplification_heuristics"], []]


def load(path):
    def pairs(l):
        d = dict(l)
        if len(d) != len(l): raise Bad("%s repeats the key %s" % (os.path.basename(path), [k for k, _ in l if [x for x, _ in l].count(k) > 1][0]))
        return d
    if not os.path.exists(path): raise Bad("%s was not written" % os.path.basename(path))
    try:
        return json.load(open(path), object_pairs_hook=pairs)
    except ValueError as e:
        raise Bad("%s is not JSON: %s" % (os.path.basename(path), e))


def lc(d, p, what):
    out = {}
    if not isinstance(d, dict): raise Bad("%s: linear expression %r" % (what, d))
    for k, v in d.items():
        if not (isinstance(k, str) and k.isdigit() and isinstance(v, str) and v.isdigit()): raise Bad("%s: entry %r: %r" % (what, k, v))
        if not 0 < int(v) < p: raise Bad("%s: coefficient %s of %s is not reduced and nonzero" % (what, v, k))
        out[int(k)] = int(v)
    return out


@guarded
def job(a, res):
    c = None
    if a["mode"] == "program":
        c = make_case(a["seed"], a["prime"], a["opts"], 1)
        if c is None:
            res.cnt("outside_model"); return
        text = c.text
    else:
        text = SysGen(random.Random(a["seed"]), Field(a["prime"]), a["mode"]).text()
    res.ctx["source"] = text
    key = "%s/%s/%s" % (a["mode"], a["seed"], a["prime"])
    wit = c is not None and not c.fails[0] and a["k"] % 3 == 0
    if not compiled(a, res, text, ["--O0", "--r1cs"] + (["--wasm"] if wit else [])): return
    d = a["dir"]
    R0 = read_r1cs(d + "/c.r1cs")
    P0 = label_polys(R0)
    w0 = None
    if wit:
        o = wasm_outs(d, [c.inputs[0]])[0]
        w0 = o.w
        if w0 is not None and len(w0) != R0.nwires: w0 = None
    for fl in a["flags"]:
        f = " ".join(fl) or "(default)"

        def bad(what): res.viol("%s/%s/%s" % (key, f, what[:30]), "%s: %s" % (f, what), simplification=fl)
        for x in ("c.r1cs", "c_constraints.json", "c_substitutions.json"):
            if os.path.exists(d + "/" + x): os.remove(d + "/" + x)
        r = circom(None, fl + ["--r1cs", "--json", "--simplification_substitution", "--prime", a["prime"]] + (["--wasm"] if wit else []), d)
        if r.timeout or r.rc: res.cnt("rejected_by_compiler"); continue
        R = read_r1cs(d + "/c.r1cs")
        p = R.p
        res.ev()
        try:
            J = load(d + "/c_constraints.json")
            if list(J) != ["constraints"]: raise Bad("constraint export has keys %s" % list(J))
            cs = []
            for k, t in enumerate(J["constraints"]):
                if not isinstance(t, list) or len(t) != 3: raise Bad("constraint %d is not a list of three" % k)
                cs.append(tuple(lc(x, p, "constraint %d" % k) for x in t))
            if len(cs) != len(R.cons): raise Bad("%d exported constraints, %d in the r1cs file" % (len(cs), len(R.cons)))
            for k, (x, y) in enumerate(zip(cs, R.cons)):
                if x != y: raise Bad("constraint %d is %s, in the r1cs file %s" % (k, x, y))
            res.cnt("constraints_compared", len(cs))
            S = {}
            if fl != ["--O0"] or os.path.exists(d + "/c_substitutions.json"):
                for k, v in load(d + "/c_substitutions.json").items():
                    if not k.isdigit(): raise Bad("substitution of %r" % k)
                    S[int(k)] = lc(v, p, "substitution of %s" % k)
        except Bad as e:
            bad(str(e)); continue
        if fl == ["--O0"]:
            if S: bad("--O0 exports %d substitutions" % len(S))
            continue
        kept = set(R.labels)
        for k, v in S.items():
            if k in kept or not 0 < k < R.nlabels: bad("signal %d is substituted but kept or unknown" % k); break
            m = [x for x in v if x in S or x >= R.nlabels]
            if m: bad("the substitution of %d mentions signal %d, which is %s" % (k, m[0], "substituted itself" if m[0] in S else "unknown")); break
        res.cnt("substitutions_checked", len(S))
        eqs = []
        for k, v in S.items():
            q = {(() if x == 0 else (x,)): u for x, u in v.items()}
            q[(k,)] = (q.get((k,), 0) - 1) % p
            eqs.append(q)
        m, info = compare(P0, label_polys(R) + eqs, set(range(R.nlabels)), p)
        if m: bad("simplified constraints and substitutions together are not the unsimplified system: " + m)
        if w0 is not None:
            o = wasm_outs(d, [c.inputs[0]])[0]
            if o.w is not None and len(o.w) == R.nwires:
                val = dict(zip(R.labels, o.w))
                z = dict(zip(R0.labels, w0))
                for k, v in S.items():
                    if all(x in val for x in v):
                        res.cnt("values_reconstructed")
                        got = sum(u * val[x] for x, u in v.items()) % p
                        if got != z[k] and not a["opts"].get("free"): bad("signal %d is reconstructed as %d, its value is %d" % (k, got, z[k])); break
        if S: res.seen("%s/%s" % (key, f), {"seed": a["seed"], "mode": a["mode"], "flags": fl, "substitutions": len(S), "constraints": len(cs)})


def body(c):
    c.rule = "a (system, flags) with at least one substitution whose exports were compared exactly with the r1cs file and the unsimplified system"
    n = 900 if c.quick else 60000

    def items():
        for k in range(n):
            mode = "program" if k % 2 else SysGen.MODES[(k // 2) % len(SysGen.MODES)]
            prof = sorted(PROFILES)[k % len(PROFILES)]
            yield dict(k=k, seed=c.rng.randrange(1 << 40), mode=mode, opts=PROFILES[prof], prime=PS[(k // 4) % 8] if k % 4 == 0 else "bn128",
                       flags=c.rng.sample(FLAGS, 3), dir=os.path.join(c.scratch, str(k)))
    c.absorb(pmap(job, items(), deadline=c.budget(45, 1500)))


if __name__ == "__main__":
    main("P16", body)
