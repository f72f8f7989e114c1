"""P18: each artefact is independent of what else is requested."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap, run, CIRCOM
from vlib.case import make_case, guarded, PROFILES
from vlib.drive import PS
from vlib.field import Field
from vlib.sysgen import SysGen

KINDS = ["--r1cs", "--sym", "--json", "--simplification_substitution", "--wasm", "--wat", "-c"]
LONG = {"-c": ["-c", "--c"], "--prime": ["--prime", "-p"], "-o": ["-o", "--output"]}
LEVEL = [["--O0"], ["--O1"], ["--O2"], ["--O2round", "1"], ["--O2", "--use_old_simplification_heuristics"], []]
NAMES = ["c.circom"] * 4 + ["a.b.circom", "x-y_1.circom", "d/c.circom", "../e/c.circom", "main.circom", "fr.circom", "calcwit.circom", "r1cs.circom", "Ünï.circom", "c c.circom", "c.txt.circom", "constraints.circom", "_.circom"]
OUTS = [None, "o", "o/", "./o", "o/p", "/abs"]


def files(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), "rb") as h: out[os.path.relpath(os.path.join(p, f), d)] = h.read()
    return out


@guarded
def job(a, res):
    r = random.Random(a["seed"])
    if a["k"] % 3 == 0: text = SysGen(r, Field(a["prime"]), r.choice(SysGen.MODES)).text()
    else:
        c = make_case(r.randrange(1 << 40), a["prime"], PROFILES[r.choice(sorted(PROFILES))], 0)
        if c is None: res.cnt("outside_model"); return
        text = c.text
    lv = r.choice(LEVEL)
    name = r.choice(NAMES)
    stem = os.path.basename(name)[:-len(".circom")]
    res.ctx["source"] = text
    n = [0]

    def go(kinds, fl, out=None):
        """one run in a new place -> (R, files by path below the output directory)"""
        n[0] += 1
        d = "%s/r%d/w" % (a["dir"], n[0])
        os.makedirs(d)
        src = os.path.join(d, name)
        os.makedirs(os.path.dirname(os.path.normpath(src)), exist_ok=True)
        with open(src, "w") as f: f.write(text)
        o, args = d, []
        if out:
            o = d + "/" + out.strip("/")
            os.makedirs(o)
            args = [r.choice(LONG["-o"]), o if out == "/abs" else out]
        before = set(files(a["dir"] + "/r%d" % n[0]))
        parts = [[r.choice(LONG["--prime"]), a["prime"]], lv, args] + [[r.choice(LONG.get(k, [k]))] for k in kinds] + fl
        r.shuffle(parts)
        cmd = [x for p in parts for x in p]
        cmd.insert(0, name) if r.random() < .7 else cmd.append(name)
        x = run([CIRCOM] + cmd, cwd=d, timeout=100)
        root = a["dir"] + "/r%d" % n[0]
        new = {os.path.relpath(os.path.join(root, f), o): b for f, b in files(root).items() if f not in before}
        x.args = cmd
        return x, new

    # every artefact alone
    single, ok = {}, None
    cs = stem + "_c" if stem in ("main", "fr", "calcwit") else stem
    base = {"--r1cs": stem + ".r1cs", "--sym": stem + ".sym", "--json": stem + "_constraints.json", "--simplification_substitution": stem + "_substitutions.json"}
    sub = []
    for k in KINDS:
        x, fs = go([k], [])
        res.ev()
        if x.timeout: res.inc("compiler still running after its time limit"); return
        if ok is None: ok = x.rc
        if x.rc != ok: res.viol("%d/%s/status" % (a["seed"], k), "with %s alone the exit status is %d, with %s alone %d" % (k, x.rc, KINDS[0], ok), flags=x.args); return
        if x.rc: continue
        if k in base: good = set(fs) == {base[k]}
        elif k == "-c": good = fs and all(f.startswith(cs + "_cpp/") for f in fs) and {cs + "_cpp/" + f for f in (cs + ".cpp", cs + ".dat", "main.cpp", "Makefile")} <= set(fs)
        else: good = set(fs) == {stem + "_js/" + f for f in ("generate_witness.js", "witness_calculator.js", stem + (".wasm" if k == "--wasm" else ".wat"))}
        # (a wat file may come with the wasm file made from it only when that was asked for)
        if not good: res.viol("%d/%s/files" % (a["seed"], k), "with %s alone the files written are %s" % (k, sorted(fs)[:9]), flags=x.args); return
        single[k] = fs
    if ok: res.cnt("rejected"); return
    for t in range(a["combos"]):
        kinds = r.sample(KINDS, r.choice([0, 2, 2, 3, 4, 6, 7]))
        # --no_asm concerns the C++ program only, --sanity_check the witness programs only
        fl = [[f] for f in r.sample(["--verbose", "--inspect"], r.choice([0, 0, 1, 2]))]
        if r.random() < .3: fl.append(["--no_asm"])
        if r.random() < .3: fl.append(["--sanity_check", r.choice("0123")])
        free = [f[0] for f in fl]
        x, fs = go(kinds, fl, r.choice(OUTS))
        res.ev(); res.cnt("combinations")
        if x.timeout: res.inc("compiler still running after its time limit"); continue
        key = "%d/%d" % (a["seed"], t)
        if x.rc: res.viol(key + "/status", "%s fails although each artefact alone is written: %s" % (" ".join(x.args), x.text[-200:]), flags=x.args); return
        want = {}
        for k in kinds:
            for f, b in single[k].items():
                # (a name that is reserved in the C++ program is changed for the whole run, with a warning)
                if k != "-c" and "-c" in kinds and cs != stem: f = "/".join(x.replace(stem, cs, 1) if x.startswith(stem) else x for x in f.split("/"))
                want[f] = (b, k)
        if set(fs) != set(want):
            if "--no_asm" in free and "-c" in kinds and not any(not f.startswith(cs + "_cpp/") for f in set(fs) ^ set(want)): pass
            else:
                res.viol(key + "/files", "%s: %s instead of the requested files" % (" ".join(x.args), sorted(set(fs) ^ set(want))[:6]), flags=x.args); return
        for f, (b, k) in sorted(want.items()):
            if k == "-c" and "--no_asm" in free: continue
            if k in ("-c", "--wasm", "--wat") and "--sanity_check" in free: continue
            res.cnt("artefacts_compared")
            if fs.get(f) != b:
                res.viol(key + "/bytes", "%s: %s differs from the one written with %s alone" % (" ".join(x.args), f, k), flags=x.args); return
        res.seen(key, {"flags": " ".join(x.args), "files": len(fs)} if kinds else None)


def body(c):
    c.rule = "a flag combination whose files were compared with those of the runs that ask for one artefact each"

    def items():
        for k in range(2000 if c.quick else 40000):
            yield dict(seed=c.rng.randrange(1 << 40), dir=c.scratch + "/%d" % k, k=k, prime="bn128" if k % 3 else c.rng.choice(PS), combos=12 if c.quick else 20)
    c.absorb(pmap(job, items(), deadline=c.budget(45, 1200)))


if __name__ == "__main__":
    main("P18", body)
