"""P01: every operator has one meaning, in constants, in WASM and in C++ (asm and portable)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
from vlib.core import circom, main, pmap
from vlib.field import Field, PRIMES, BINOPS, UNOPS, DivZero
from vlib.files import read_r1cs, read_sym, Bad
from vlib.wit import Wasm, build_cpp, run_cpp

DIVS = ("/", "\\", "%")
FORMS = ["x", "x * one", "x + zero", "-(-x)", "(x * one) * one + zero", "(x | zero)"]


def runtime_src(n):
    """operands reach each operator through several internal representations"""
    nf = len(FORMS)
    s = "pragma circom 2.1.6;\ntemplate T(){\n signal input a[%d]; signal input b[%d]; signal input one; signal input zero;\n" % (n, n)
    s += " signal output o[%d][%d][%d];\n signal output u[%d][%d][%d];\n" % (n, nf * nf, len(BINOPS), n, nf, len(UNOPS))
    s += " var fa[%d]; var fb[%d]; var x;\n" % (nf, nf)
    s += " for (var i = 0; i < %d; i++) {\n" % n
    for k, f in enumerate(FORMS):
        s += "  x = a[i]; fa[%d] = %s;\n  x = b[i]; fb[%d] = %s;\n" % (k, f, k, f)
    s += "  for (var f = 0; f < %d; f++) {\n" % nf
    for k, op in enumerate(UNOPS):
        s += "   u[i][f][%d] <-- %sfa[f];\n" % (k, op)
    s += "   for (var g = 0; g < %d; g++) {\n" % nf
    for k, op in enumerate(BINOPS):
        if op in DIVS:
            s += "    if (b[i] != 0) { o[i][f*%d+g][%d] <-- fa[f] %s fb[g]; } else { o[i][f*%d+g][%d] <-- 0; }\n" % (nf, k, op, nf, k)
        else:
            s += "    o[i][f*%d+g][%d] <-- fa[f] %s fb[g];\n" % (nf, k, op)
    s += "   }\n  }\n }\n}\ncomponent main = T();\n"
    return s


def expected_runtime(F, A, B):
    nf = len(FORMS)
    out = []
    for a, b in zip(A, B):
        r = []
        for op in BINOPS:
            r.append(0 if (op in DIVS and b == 0) else F.bin(op, a, b))
        out += r * (nf * nf)
    for a, b in zip(A, B):
        out += [F.un(op, a) for op in UNOPS] * nf
    return out


def describe(F, A, B, k):
    nf = len(FORMS)
    per = nf * nf * len(BINOPS)
    if k < per * len(A):
        i, r = divmod(k, per)
        fg, op = divmod(r, len(BINOPS))
        return "%d %s %d (operand forms '%s','%s')" % (A[i], BINOPS[op], B[i], FORMS[fg // nf], FORMS[fg % nf])
    k -= per * len(A)
    i, r = divmod(k, nf * len(UNOPS))
    f, op = divmod(r, len(UNOPS))
    return "%s %d (form '%s')" % (UNOPS[op], A[i], FORMS[f])


def job(arg):
    kind, prime, seed, n, d, cache, quick = arg
    import random
    rng = random.Random(seed)
    F = Field(prime)
    res = dict(count={}, seen=[], viol=[], inc=[])

    def cnt(k, v=1): res["count"][k] = res["count"].get(k, 0) + v
    if kind == "runtime":
        ev = F.edge_values()
        A, B = [], []
        for _ in range(n):
            if rng.random() < .6:
                a, b = F.near(rng, rng.choice(BINOPS))
            else:
                a, b = F.rand(rng), rng.choice(ev) if rng.random() < .5 else F.rand(rng)
            A.append(a); B.append(b)
        src = runtime_src(n)
        exp = expected_runtime(F, A, B)
        inp = {"a": [str(x) for x in A], "b": [str(x) for x in B], "one": "1", "zero": "0"}

        def compare(tag, w):
            got = w[1:1 + len(exp)]
            cnt("operator_evaluations_" + tag, len(exp))
            cnt("evaluations", len(exp))
            for k, (g, e) in enumerate(zip(got, exp)):
                if g != e:
                    res["viol"].append(("%s/%s/%s" % (prime, tag, describe(F, A, B, k)),
                                        "%s %s: %s gives %d, expected %d" % (prime, tag, describe(F, A, B, k), g, e),
                                        dict(prime=prime, backend=tag, inputs=inp, source=src)))
                    if len(res["viol"]) > 3:
                        break
        for backend, flags in (("asm", ["--wasm", "-c"]), ("noasm", ["-c", "--no_asm"])):
            dd = os.path.join(d, "%s_%s_%s" % (prime, backend, seed))
            r = circom(src, ["--prime", prime] + flags, dd)
            if r.timeout:
                res["inc"].append("compile timeout"); continue
            if r.rc:
                res["viol"].append(("%s/%s/compile" % (prime, backend), "operator circuit does not compile: " + r.text[-300:],
                                    dict(prime=prime, source=src)))
                continue
            if backend == "asm":
                w = Wasm.get().run(dd, "c", [inp], timeout=180)[0]
                if w["w"] is None:
                    res["viol"].append(("%s/wasm/run" % prime, "wasm run failed: %s" % w["err"], dict(prime=prime, inputs=inp, source=src)))
                else:
                    compare("wasm", w["w"])
            try:
                exe = build_cpp(dd, "c", cache)
            except Bad as e:
                res["viol"].append(("%s/cpp-%s/build" % (prime, backend), "generated C++ does not build: %s" % e, dict(prime=prime, source=src)))
                continue
            x = run_cpp(exe, inp, timeout=120)
            if x["timeout"]:
                res["inc"].append("cpp timeout")
            elif x["w"] is None:
                res["viol"].append(("%s/cpp-%s/run" % (prime, backend), "C++ run failed rc=%s: %s" % (x["rc"], x["err"][-300:]), dict(prime=prime, inputs=inp, source=src)))
            else:
                compare("cpp_" + backend, x["w"])
            for a, b in zip(A, B):
                res["seen"].append("%s:%d:%d" % (prime, a, b))
    else:
        # constants: the value folded into the constraint system, and the value both
        # witness programs compute for the same constant expression
        ev = F.edge_values()
        lits, exprs, exp = [], [], []

        def lit(v):
            k = rng.random()
            if k < .25: return "0x%x" % v
            if k < .4: return str(v + F.p)
            if k < .5 and v: return "(-%d)" % (F.p - v)
            return str(v)
        body = ""
        for i in range(n):
            op = BINOPS[i % len(BINOPS)]
            if rng.random() < .5: a, b = F.near(rng, op)
            else: a = F.rand(rng); b = rng.choice(ev) if rng.random() < .5 else F.rand(rng)
            if op in DIVS and b == 0: b = 1
            style = rng.choice([0, 1, 2, 3, 3, 3])
            if style == 0:
                ex = "%s %s %s" % (lit(a), op, lit(b)); v = F.bin(op, a, b)
                body += " o[%d] <== %s;\n" % (i, ex)
            elif style == 1 and op not in ("&&", "||", "==", "!=", "<", ">", "<=", ">="):
                ex = "x = %s; x %s= %s" % (lit(a), op, lit(b)); v = F.bin(op, a, b)
                body += " %s; o[%d] <== x;\n" % (ex, i)
            elif style == 2:
                u = rng.choice(UNOPS); ex = "%s(%s %s %s)" % (u, lit(a), op, lit(b)); v = F.un(u, F.bin(op, a, b))
                body += " o[%d] <== %s;\n" % (i, ex)
            else:
                c = F.rand(rng); op2 = rng.choice(["+", "-", "*", "&", "|", "^", "==", "<", "<=", ">>", "<<", "\\", "%", "**", "&&", "||", "!=", ">", ">="])
                if op2 in (">>", "<<"): c = rng.choice([0, 1, 2, 63, 64, c])
                if op2 in DIVS: c = rng.choice([1, 2, 3, F.p - 1, c or 1])
                if op2 == "&" and rng.random() < .5: c = rng.choice([1, 3, (1 << 64) - 1])
                c %= F.p
                ex = "(%s %s %s) %s %s" % (lit(a), op, lit(b), op2, lit(c)); v = F.bin(op2, F.bin(op, a, b), c)
                body += " x = (%s) ; o[%d] <== x;\n" % (ex, i)
            exprs.append(ex); exp.append(v)
        # the dead code elimination cannot fold variables, so the same expressions also run
        src = "pragma circom 2.1.6;\ntemplate T(){ signal input z; signal output o[%d]; var x;\n%s}\ncomponent main = T();\n" % (n, body)
        dd = os.path.join(d, "c_%s_%s" % (prime, seed))
        runs = kind == "const"
        r = circom(src, ["--prime", prime, "--O0", "--r1cs"] + (["--wasm", "-c"] if runs else []), dd)
        if r.timeout:
            res["inc"].append("compile timeout"); return res
        if r.rc:
            res["viol"].append(("%s/const/compile" % prime, "constant circuit does not compile: " + r.text[-300:], dict(prime=prime, source=src)))
            return res
        got = {}
        r1 = read_r1cs(os.path.join(dd, "c.r1cs"))
        for A_, B_, C_ in r1.cons:
            if A_ or B_: continue
            ws = [k for k in C_ if k]
            if len(ws) == 1:
                got[ws[0] - 1] = (-C_.get(0, 0) * F.inv(C_[ws[0]])) % F.p
        w = Wasm.get().run(dd, "c", [{"z": 0}])[0] if runs else dict(w=None, err="")
        xs = {}
        try:
            if runs:
                exe = build_cpp(dd, "c", cache)
                xs = run_cpp(exe, {"z": 0})
        except Bad as e:
            res["viol"].append(("%s/const/build" % prime, "C++ build: %s" % e, dict(prime=prime, source=src)))
        for k in range(n):
            for tag, g in (("constraint", got.get(k)), ("wasm", w["w"][1 + k] if w["w"] else None),
                           ("cpp", xs["w"][1 + k] if xs.get("w") else None)):
                if tag != "constraint" and not runs: continue
                if g is None:
                    res["viol"].append(("%s/const/%s/%s/missing" % (prime, tag, exprs[k]), "%s: no value for constant %s in %s (%s)" % (
                        prime, exprs[k], tag, w["err"]), dict(prime=prime, source=src)))
                    continue
                cnt("constant_evaluations_" + tag); cnt("evaluations")
                if g != exp[k]:
                    res["viol"].append(("%s/const/%s/%s" % (prime, tag, exprs[k]), "%s: constant '%s' is %d in %s, expected %d" % (
                        prime, exprs[k], g, tag, exp[k]), dict(prime=prime, source=src)))
            res["seen"].append(("%s:%s" % (prime, exprs[k]), "%s: %s = %d" % (prime, exprs[k][:120], exp[k])))
    return res


def body(c):
    cache = c.sub("cache")
    c.rule = "a (prime, operand pair or constant expression) whose operator results were compared on a back end"
    end = c.budget(60, 1500)
    items = []
    rounds = 3 if c.quick else 100
    for k in range(rounds):
        for prime in PRIMES:
            items.append(("runtime", prime, c.rng.randrange(1 << 30), 14 if c.quick else 24, c.scratch, cache, c.quick))
        for prime in PRIMES:
            items.append(("const", prime, c.rng.randrange(1 << 30), 120 if c.quick else 240, c.scratch, cache, c.quick))
        for prime in PRIMES:
            items.append(("fold", prime, c.rng.randrange(1 << 30), 1000, c.scratch, cache, c.quick))
    c.absorb(pmap(job, items, deadline=end))
    c.assumptions.append("division, integer division and remainder are sampled with non-zero divisors")


if __name__ == "__main__":
    main("P01", body)
