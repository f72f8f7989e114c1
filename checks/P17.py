"""P17: compilation is deterministic."""
import os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap, run, CIRCOM, VERIF, Inconclusive, strip_ansi
from vlib.case import make_case, guarded, PROFILES
from vlib.drive import PS
from vlib.field import Field
from vlib.gen2 import GenX
from vlib.hostile import mutate_tokens, mutate_ast, Soup
from vlib.sysgen import SysGen
from vlib.inspectgen import Gen as InspectGen

ART = ["--r1cs", "--sym", "--json", "--simplification_substitution", "--wasm", "--wat", "-c", "--inspect", "--verbose"]
MODES = ["program", "system", "system", "system", "system", "instances", "hostile", "instances", "system", "program", "hostile", "custom", "system", "library", "hostile"]


def files(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), "rb") as h: out[os.path.relpath(os.path.join(p, f), d)] = h.read()
    return out


def custom(r):
    n = r.randrange(2, 9)
    ts = "".join("template custom G%d(k) { signal input in[2]; signal output out; out <-- in[0] * in[1] + k; }\n" % i for i in range(n))
    use = "".join("  component g%d = G%d(%d); g%d.in[0] <== a[%d]; g%d.in[1] <== a[%d]; o[%d] <== g%d.out;\n" % (i, r.randrange(n), r.randrange(3), i, r.randrange(4), i, r.randrange(4), i, i) for i in range(12))
    return "pragma circom 2.1.6;\npragma custom_templates;\n%stemplate M() {\n  signal input a[4]; signal output o[12];\n%s}\ncomponent main = M();\n" % (ts, use)


@guarded
def job(a, res):
    r = random.Random(a["seed"])
    mode, extra = a["mode"], {}
    if mode in ("program", "library"):
        c = make_case(r.randrange(1 << 40), a["prime"], PROFILES[r.choice(sorted(PROFILES))], 0)
        if c is None: res.cnt("outside_model"); return
        text = c.text
        if mode == "library":
            # every definition in a file of its own
            parts = re.split(r"(?m)^(?=template |function |bus |component main)", text)
            for i, t in enumerate(parts[1:-1]): extra["lib/d%d.circom" % i] = (parts[0] if i % 2 else "") + t
            text = parts[0] + "".join('include "d%d.circom";\n' % i for i in range(len(parts) - 2)) + parts[-1]
    elif mode == "system": text = SysGen(r, Field(a["prime"]), r.choice(SysGen.MODES)).text()
    elif mode == "custom": text = custom(r)
    elif mode == "instances": text = InspectGen(r).text()
    else:
        g = GenX(random.Random(r.randrange(1 << 40)), Field("bn128"), **PROFILES[r.choice(sorted(PROFILES))]).program()
        try:
            text = r.choice([lambda: mutate_tokens(r, g.text(), g.text()), lambda: mutate_ast(r, g).text(), lambda: mutate_ast(r, g).text(), lambda: Soup(r).text()])()
        except (TypeError, IndexError, KeyError, AttributeError, ValueError):
            text = Soup(r).text()
        if isinstance(text, bytes): text = text.decode("utf-8", "replace")
    art = ART
    if mode == "system" and r.random() < .7: art = ["--r1cs", "--sym", "--json", "--simplification_substitution"] # (many short compilations)
    fl = [r.choice(["--O0", "--O1", "--O2", "--O2"])] + r.sample(art, min(len(art), r.choice([4, 6, 9]))) + (["--use_old_simplification_heuristics"] if r.random() < .2 else []) + ["--prime", a["prime"], "-l", "lib"]
    res.ctx["source"] = text; res.ctx["flags"] = fl; res.ctx["extra"] = extra
    ref = None
    for k in range(a["runs"]):
        # (the working directory, the number of processors, the hash seeds and the schedule differ)
        d = a["dir"] + "/%s%d" % ("x" * r.choice([1, 1, 40]), k)
        os.makedirs(d + "/out")
        for f, t in [("c.circom", text)] + sorted(extra.items()):
            os.makedirs(os.path.dirname(d + "/" + f), exist_ok=True)
            with open(d + "/" + f, "w") as h: h.write(t)
        cwd, inp, out, lib = d, "c.circom", "out", "lib"
        where = k % 3
        if where == 1: cwd, inp, out, lib = a["dir"], d + "/c.circom", d + "/out", d + "/lib"
        elif where == 2: cwd, inp, out, lib = d + "/out", "../c.circom", ".", "../lib"
        cpus = [None, "0", "0-1", "3", None, "2-5"][k % 6]
        env = dict(VP_PERTURB=str(a["seed"] % 100000 * 16 + k), VP_PERTURB_LOG=d + "/perturb", LD_PRELOAD=a["so"]) if k else {}
        env.update({"LANG": r.choice(["C", "en_US.UTF-8", "tr_TR.UTF-8"]), "TMPDIR": d, "HOME": d})
        cmd = (["taskset", "-c", cpus] if cpus else []) + (["nice", "-n", "5"] if k % 4 == 2 else []) + [CIRCOM, inp, "-o", out] + [lib if f == "lib" else f for f in fl]
        x = run(cmd, cwd=cwd, timeout=100, env=env)
        if x.timeout: res.inc("compiler still running after its time limit"); return
        if k and os.path.exists(d + "/perturb"):
            t, n, s = map(int, open(d + "/perturb").read().split())
            res.cnt("threads_started", t); res.cnt("delays_injected", n); res.cnt("hash_seeds_chosen", s)
        # messages: the set of their lines; names of files depend on the directory
        msg = sorted(l for l in strip_ansi(x.out + "\n" + x.err).replace(d, "").split("\n") if not re.search(r"Written|written in|┌─|^-+$|seconds|Parsing|File \"|thread '", l))
        now = (x.rc, files(d + "/out"), msg)
        res.ev(); res.cnt("runs")
        if ref is None:
            ref = now; res.cnt("accepted" if x.rc == 0 else "rejected"); continue
        what = "run %d (processors %s, directory form %d, schedule %s)" % (k, cpus, where, env.get("VP_PERTURB"))
        if now[0] != ref[0]: res.viol("%d/status" % a["seed"], "%s: exit status %s instead of %s" % (what, now[0], ref[0])); return
        if now[1] != ref[1]:
            df = sorted(f for f in set(now[1]) | set(ref[1]) if now[1].get(f) != ref[1].get(f))
            res.viol("%d/bytes" % a["seed"], "%s: %s differ" % (what, ", ".join(df[:4]))); return
        if now[2] != ref[2]:
            df = [l for l in now[2] if l not in ref[2]] + [l for l in ref[2] if l not in now[2]]
            res.viol("%d/messages" % a["seed"], "%s: the messages differ: %s" % (what, df[:2])); return
    res.seen(a["seed"], {"mode": mode, "flags": " ".join(fl), "runs": a["runs"], "files": len(ref[1]), "exit status": ref[0]})


def body(c):
    c.rule = "a (source, flags) compiled several times under different schedules, processor sets, hash seeds and directories, with all outcomes equal"
    so = c.scratch + "/perturb.so"
    x = run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "native/perturb.c"), "-ldl"])
    if x.rc: raise Inconclusive("perturb.c does not compile: " + x.err[-300:])

    def items():
        for k in range(2000 if c.quick else 40000):
            yield dict(seed=c.rng.randrange(1 << 40), dir=c.scratch + "/%d" % k, mode=MODES[k % len(MODES)], prime="bn128" if k % 3 else c.rng.choice(PS), so=so, runs=5 if c.quick else 8)
    c.absorb(pmap(job, items(), deadline=c.budget(50, 1200)))


if __name__ == "__main__":
    main("P17", body)
