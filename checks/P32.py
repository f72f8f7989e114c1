"""P32: the witness is a function of the input: histories of one calculator, order of keys,
repeated runs, both ways of getting it, and the witness file format."""
import os, random, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap, run
from vlib.case import make_case, guarded, as_str, PROFILES
from vlib.drive import stream, compiled
from vlib.field import PRIMES
from vlib.files import read_wtns, read_r1cs
from vlib.genr import GenR, balanced_inputs
from vlib.wit import Wasm, build_cpp, run_cpp

FLAGS = [["--O0"], ["--O1"], ["--O2"], ["--O2", "--sanity_check", "1"], ["--O1", "--sanity_check", "0"]]


def shuffled(x, rng):
    if isinstance(x, list): return [shuffled(y, rng) for y in x]
    if isinstance(x, dict):
        ks = list(x); rng.shuffle(ks)
        return {k: shuffled(x[k], rng) for k in ks}
    return x


def spoil(inp, rng):
    """an input that is refused while it is being loaded, possibly half way"""
    y = dict(inp)
    k = rng.choice(list(y)) if y else None
    m = rng.randrange(5)
    if k is None or m == 0: y = dict(list(y.items())); y["zz_unknown"] = "1"
    elif m == 1: del y[k]
    elif m == 2: y[k] = [y[k], "1"] if not isinstance(y[k], dict) else "3"
    elif m == 3: y[k] = []
    else: y = {"zz_unknown": "1", **y}
    return y


def file_of(p, n8, w):
    b = b"wtns" + struct.pack("<II", 2, 2) + struct.pack("<IQI", 1, 8 + n8, n8) + p.to_bytes(n8, "little") + struct.pack("<I", len(w))
    return b + struct.pack("<IQ", 2, n8 * len(w)) + b"".join(x.to_bytes(n8, "little") for x in w)


@guarded
def job(a, res):
    opts = dict(a["opts"], rf=.12)
    c = make_case(a["seed"], a["prime"], opts, 1, gen=GenR)
    if c is None:
        res.cnt("outside_model"); return
    res.ctx["source"] = c.text
    rng = random.Random(a["seed"])
    p = PRIMES[a["prime"]]
    n8 = (p.bit_length() + 63) // 64 * 8
    inputs = [as_str(i) for i in balanced_inputs(c, rng, GenR(rng, c.F, **opts), 6)]
    if not inputs: return
    key = "%s/%s/%s" % (a["seed"], a["prime"], " ".join(a["flags"]))
    if not compiled(a, res, c.text, a["flags"] + ["--wasm", "--r1cs"] + (["-c"] if a["cpp"] else [])): return
    R = read_r1cs(a["dir"] + "/c.r1cs")
    fresh = [x["w"] for x in Wasm.get().run(a["dir"], "c", inputs)]
    files = [None if w is None else file_of(p, n8, w) for w in fresh]
    for k, w in enumerate(fresh):
        if w is not None and (len(w) != R.nwires or w[0] != 1 or max(w) >= p or min(w) < 0):
            res.viol(key + "/values", "the witness has %d values for %d wires, or is not reduced" % (len(w), R.nwires), input=inputs[k])
    # one instance over a history of good, refused and malformed inputs
    steps, idx = [], []
    for _ in range(a["steps"]):
        k = rng.randrange(len(inputs))
        inp = shuffled(inputs[k], rng)
        if rng.random() < .25: inp, k = spoil(inp, rng), None
        steps.append(dict(input=inp, m=rng.choice(["w", "w", "bin", "wtns"]), sanity=rng.random() < .5)); idx.append(k)
    for n, (st, k, r) in enumerate(zip(steps, idx, Wasm.get().run(a["dir"], "c", steps_text(steps), mode="hist"))):
        got = r["w"] if st["m"] == "w" else bytes.fromhex(r[st["m"]]) if r[st["m"]] is not None else None
        if st["m"] == "w" and got is not None: got = [int(x) for x in got]
        if k is None:
            res.cnt("history_malformed_refused" if got is None else "history_malformed_accepted"); continue
        want = fresh[k] if st["m"] == "w" else files[k] if st["m"] == "wtns" else None if fresh[k] is None else b"".join(x.to_bytes(n8, "little") for x in fresh[k])
        res.ev(); res.cnt("history_steps"); res.cnt("history_%s" % ("refused" if want is None else "accepted"))
        if got != want:
            res.viol(key + "/history", "after %d calls of one calculator, %s gives %s instead of %s" % (
                n, {"w": "calculateWitness", "bin": "calculateBinWitness", "wtns": "calculateWTNSBin"}[st["m"]], brief(got, r["err"]), brief(want, "")),
                history=steps[:n + 1])
            break
        res.seen("%s/%d" % (key, n), {"seed": a["seed"], "prime": a["prime"], "calls before": n, "method": st["m"], "refused": want is None} if n > 2 else None)
    # the command line program, and the C++ program, repeatedly and with permuted keys
    if a["cli"]:
        import json
        k = rng.randrange(len(inputs)); d = a["dir"] + "/c_js"
        with open(d + "/in.json", "w") as f: f.write(json.dumps(shuffled(inputs[k], rng), indent=rng.choice([None, 2])))
        r = run(["node", "generate_witness.js", "c.wasm", "in.json", "out.wtns"], cwd=d, timeout=60)
        if r.timeout: res.inc("generate_witness.js timed out")
        else:
            b = open(d + "/out.wtns", "rb").read() if os.path.exists(d + "/out.wtns") else None
            res.ev(); res.cnt("command_line_runs")
            if b != files[k]:
                res.viol(key + "/cli", "generate_witness.js writes %s instead of %s" % (brief(b, r.err[-200:]), brief(files[k], "")), input=inputs[k])
            if files[k] is None and r.rc == 0:
                res.viol(key + "/cli-status", "generate_witness.js refuses the input but exits with status 0", input=inputs[k])
    if a["cpp"]:
        exe = build_cpp(a["dir"], "c", a["cache"])
        for k, inp in enumerate(inputs[:4]):
            outs = []
            for n in range(3):
                x = run_cpp(exe, shuffled(inp, rng), tag=str(n))
                if x["timeout"]: res.inc("C++ run timed out"); continue
                outs.append(x["wtns"] if x["rc"] == 0 else None)
            res.ev(len(outs)); res.cnt("cpp_runs", len(outs))
            if any(o != outs[0] for o in outs):
                res.viol(key + "/cpp-repeat", "the C++ program gives different outcomes for permuted keys", input=inp); continue
            if outs and outs[0] is not None and outs[0] != file_of(p, n8, read_wtns(outs[0])):
                res.viol(key + "/cpp-file", "the C++ witness file is not in the documented format", input=inp)
            if outs and outs[0] is not None and fresh[k] is not None and outs[0] != files[k]:
                res.viol(key + "/cpp-bytes", "the C++ witness file differs from the one of the WASM program", input=inp)


def steps_text(steps):
    import json
    return [json.dumps(s) for s in steps]


def brief(x, err):
    if x is None: return "a refusal (%s)" % str(err).strip().split("\n")[0][:100]
    if isinstance(x, list): return "a witness %s..." % x[:6]
    return "%d bytes %s..." % (len(x), x[:24].hex())


def body(c):
    c.rule = "a call in a history of one calculator instance whose result was compared with the one of a fresh instance"
    cache = c.sub("cache")

    def items():
        for a in stream(c, 1600, 100000, FLAGS, {k: v for k, v in PROFILES.items() if k != "par"}):
            a.update(cache=cache, steps=30, cli=a["k"] % 6 == 0, cpp=a["k"] % 10 in (3, 6))
            yield a
    c.absorb(pmap(job, items(), deadline=c.budget(45, 1200)))


if __name__ == "__main__":
    main("P32", body)
