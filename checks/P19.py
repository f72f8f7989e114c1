"""P19: every source text and flag combination gets a clean verdict."""
import os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap, circom, run, CIRCOM, strip_ansi
from vlib.case import guarded, PROFILES
from vlib.field import Field
from vlib.gen2 import GenX
from vlib.hostile import mutate_tokens, mutate_lines, mutate_bytes, mutate_ast, nest, Soup
from vlib.verdict import judge, artefacts

F = Field("bn128")
MODES = ["tokens", "tokens", "ast", "ast", "ast", "lines", "bytes", "soup", "splice", "nest", "files", "cli"]
GOOD = [["--r1cs"], ["--sym"], ["--json"], ["--wasm"], ["--wat"], ["-c"], ["--simplification_substitution"], ["--inspect"], ["--verbose"], ["--no_asm"], ["--no_init"],
        ["--use_old_simplification_heuristics"], ["--sanity_check", "0"], ["--sanity_check", "1"], ["--sanity_check", "3"], ["--prime", "goldilocks"], ["--prime", "bls12381"], ["-o", "out"], ["-l", "lib"], ["-l", "nowhere"]]
BAD = [["--prime", "bn129"], ["--prime", ""], ["--sanity_check", "4"], ["--sanity_check", "x"], ["--O2round", "x"], ["--O2round", "0"], ["--O2round", "99999999999999999999999"], ["-o", "missing"], ["-o", "c.circom"], ["--bogus"], ["--prime"],
       ["-o"], ["--O1", "--O2"], ["--O0", "--O2round", "3"], ["--r1cs", "--r1cs"], ["second.circom"], ["--O3"], ["-p", "BN128"]]

NOVALUE = [["-o"], ["--prime"]]


def source(r, mode):
    def prog():
        g = GenX(random.Random(r.randrange(1 << 40)), F, **PROFILES[r.choice(sorted(PROFILES))])
        return g.program()
    if mode == "ast":
        for _ in range(20):
            try:
                return mutate_ast(r, prog()).text()
            except (TypeError, IndexError, KeyError, AttributeError, ValueError):
                continue
        return prog().text()
    if mode == "tokens": return mutate_tokens(r, prog().text(), prog().text())
    if mode == "lines": return mutate_lines(r, prog().text(), prog().text())
    if mode == "bytes": return mutate_bytes(r, prog().text())
    if mode == "soup": return Soup(r).text()
    if mode == "splice": return mutate_tokens(r, Soup(r).text(), prog().text())
    if mode == "nest": return nest(r)
    return prog().text()


def flags_for(r, mode):
    fl = [r.choice(["--O0", "--O1", "--O2"])] if r.random() < .7 else []
    k = r.choice([0, 1, 2, 3, 6]) if mode != "cli" else r.randrange(0, 9)
    seen = {x.split("=")[0] for x in fl}
    for f in r.sample(GOOD, k):
        if f[0] in seen: continue
        seen.add(f[0]); fl += f
    if mode == "cli":
        bad = r.sample(BAD, r.choice([0, 1, 1, 2]))
        for f in [f for f in bad if f not in NOVALUE] + [f for f in bad if f in NOVALUE][:1]: fl += f  # a flag without its value comes last
    return fl


def layout(r, mode, text):
    """extra files around the source, possibly nonsense"""
    ex, inp = {}, "c.circom"
    if mode == "files":
        inc = r.choice(["x.circom", "lib/x.circom", "./x.circom", "../x.circom", "missing.circom", "c.circom", "out", "", "x", "/", "x.circom/", "é.circom"])
        lines = text.split("\n")
        for _ in range(r.choice([1, 1, 2])): lines.insert(r.randrange(0, min(4, len(lines))), 'include "%s";' % inc)
        text = "\n".join(lines)
        body = r.choice([lambda: source(r, "tokens"), lambda: source(r, "soup"), lambda: "", lambda: "pragma circom 2.0.0;\ntemplate Extra() { signal input q; }\n", lambda: "component main = T();", lambda: 'include "c.circom";',
                         lambda: 'include "y.circom";', lambda: text, lambda: "function f(a) { return a; "])()
        ex = {"x.circom": body, "lib/x.circom": body, "y.circom": 'include "x.circom"; include "./lib/x.circom";'}
    if mode == "cli":
        inp = r.choice(["c.circom"] * 5 + ["missing.circom", "out", ".", "", "./c.circom", "out/../c.circom", "c", "c.circom.circom"])
    return text, ex, inp


@guarded
def job(a, res):
    r = random.Random(a["seed"])
    mode = MODES[a["k"] % len(MODES)]
    text = source(r, mode)
    text, ex, inp = layout(r, mode, text)
    if isinstance(text, str): text = text.encode("utf-8", "surrogateescape")
    fl = flags_for(r, mode)
    d = a["dir"]
    os.makedirs(d + "/out"); os.makedirs(d + "/lib", exist_ok=True)
    os.makedirs(d + "/c.circom.circom")
    with open(d + "/c.circom", "wb") as f: f.write(text)
    for k, v in ex.items():
        os.makedirs(os.path.dirname(os.path.join(d, k)), exist_ok=True)
        with open(os.path.join(d, k), "wb") as f: f.write(v.encode("utf-8", "surrogateescape") if isinstance(v, str) else v)
    res.ctx.update(source=text.decode("utf-8", "replace"), flags=fl, input=inp, files={k: v if isinstance(v, str) else v.decode("utf-8", "replace") for k, v in ex.items()}, mode=mode)
    x = run([CIRCOM, inp] + fl, cwd=d, timeout=30, mem=8 << 30)
    if x.timeout:
        res.inc("compiler still running after its time limit (%s)" % mode)
        return
    res.ev(); res.cnt("mode_" + mode)
    key = "%s/%s" % (mode, a["seed"])
    v = judge(x, d, inp, fl, res)
    if v == "resources": res.inc("the program needs more memory than it was given"); return
    for what in v: res.viol(key + "/" + what[:60], "%s [%s]" % (what, " ".join(fl)), output=x.text[-2000:])
    res.cnt("accepted" if x.rc == 0 else "rejected")
    codes = sorted(set(re.findall(r"(?:error|warning)\[(\w+)\]", x.text)))
    res.seen((mode, x.rc, tuple(codes), len(fl)), {"mode": mode, "seed": a["seed"], "rc": x.rc, "codes": codes, "flags": fl})


def body(c):
    c.rule = "a distinct combination of hostile-input family, exit status, set of error codes and number of flags"
    n = 60000 if c.quick else 10 ** 7
    items = (dict(seed=c.rng.randrange(1 << 40), k=k, dir=os.path.join(c.scratch, str(k))) for k in range(n))
    c.absorb(pmap(job, items, deadline=c.budget(45, 1500)))


if __name__ == "__main__":
    main("P19", body)
