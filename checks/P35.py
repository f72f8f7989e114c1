"""P35: a failed write is never reported as success."""
import json, os, random, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap, run, CIRCOM
from vlib.case import guarded, PROFILES, make_case, as_str
from vlib.field import PRIMES
from vlib.verdict import OK, artefacts
from vlib.wit import build_cpp

KINDS = ["--r1cs", "--sym", "--json", "--simplification_substitution", "--wasm", "--wat", "-c"]
SINGLE = {"--r1cs": "c.r1cs", "--sym": "c.sym", "--json": "c_constraints.json", "--simplification_substitution": "c_substitutions.json"}
CONST = {"--prime": 1}


def big(r):
    """a program whose artefacts span many buffer sizes"""
    n, m = r.choice([3, 20, 60, 200, 500]), r.choice([1, 2, 5])
    cg = r.random() < .3
    head = "pragma circom 2.2.0;\n" + ("pragma custom_templates;\ntemplate custom G(k) { signal input in; signal output out; out <-- in * k; }\n" if cg else "")
    body = ""
    for j in range(m):
        body += "  for (var i = 0; i < N; i++) { t%d[i] <== a[i] * a[(i * %d + 1) %% N] + %s; log(\"step %s\", t%d[i]); }\n" % (j, r.randrange(1, 9), r.choice(["i", "a[0]", "%d" % r.randrange(1 << 60)]), "x" * r.randrange(0, 60), j)
    decl = "".join("  signal t%d[N];\n" % j for j in range(m))
    tail = "".join("  component g%d = G(%d); g%d.in <== t0[%d];\n" % (j, r.randrange(99), j, r.randrange(n)) for j in range(r.choice([1, 3, 40]) if cg else 0))
    lin = "  signal l[N];\n  l[0] <== a[0];\n  for (var i = 1; i < N; i++) { l[i] <== l[i - 1] + t0[i]; }\n" if r.random() < .7 else "  signal l[N]; for (var i = 0; i < N; i++) { l[i] <== t0[i]; }\n"
    return head + "template T(N) {\n  signal input a[N];\n  signal output o;\n" + decl + body + lin + tail + "  o <== l[N - 1] * a[0];\n}\ncomponent main%s = T(%d);\n" % (" {public [a]}" if r.random() < .3 else "", n), n


def tree(d):
    return {os.path.relpath(os.path.join(p, f), d): os.path.join(p, f) for p, _, fs in os.walk(d) for f in fs}


def limited(cmd, lim, cwd):
    if lim is None: return run(cmd, cwd=cwd, timeout=100)
    return run(["bash", "-c", 'trap "" XFSZ; exec prlimit --fsize=%d "$@"' % lim, "x"] + cmd, cwd=cwd, timeout=100)


def bytes_of(p):
    with open(p, "rb") as f: return f.read()


def sizes(r, szs, n):
    """limits at and around the ends of files and of buffers"""
    out = []
    for _ in range(n):
        s = r.choice(szs)
        out.append(max(0, r.choice([s - 1, s - 1, s, s - r.randrange(1, 9), r.randrange(0, s + 1), s // 8192 * 8192, s // 8192 * 8192 + 1, s - 8192, 0, 1, r.randrange(0, 200)])))
    return out


@guarded
def job(a, res):
    r = random.Random(a["seed"])
    d = a["dir"]; os.makedirs(d)
    if r.random() < .75: text, n = big(r)
    else:
        c = make_case(r.randrange(1 << 30), a["prime"], PROFILES["big"], 0)
        if c is None: res.cnt("outside_model"); return
        text, n = c.text, None
    with open(d + "/c.circom", "w") as f: f.write(text)
    res.ctx["source"] = text
    kinds = r.sample(KINDS, r.choice([1, 1, 1, 2, 3]))
    lv = r.choice([["--O0"], ["--O1"], ["--O2"]])
    if "--simplification_substitution" in kinds and lv == ["--O0"] and r.random() < .8: lv = ["--O2"]
    fl = lv + kinds + ["--prime", a["prime"]] + r.choice([[], ["-o", "out"]])
    res.ctx["flags"] = fl
    os.makedirs(d + "/out")
    cmd = [CIRCOM, "c.circom"] + fl
    x = run(cmd, cwd=d, timeout=100)
    if x.timeout: res.inc("compiler still running after its time limit"); return
    want = [os.path.normpath(f) for f in artefacts("c.circom", fl)]
    if x.rc != 0: res.cnt("rejected"); return
    base = {f: bytes_of(p) for f, p in tree(d).items()}
    made = [f for f in base if f != "c.circom"]
    lost = [f for f in want if f not in base]
    if lost: res.viol("%d/missing" % a["seed"], "success without %s" % lost); return
    szs = sorted({len(base[f]) for f in made})

    def clean():
        for f in os.listdir(d):
            if f != "c.circom":
                q = os.path.join(d, f)
                shutil.rmtree(q) if os.path.isdir(q) and not os.path.islink(q) else os.remove(q)
        os.makedirs(d + "/out")

    def judge(x, what, blocked=()):
        res.ev(); res.cnt("compiler_runs")
        if x.timeout: res.inc("compiler still running after its time limit"); return
        if x.rc == 0:
            short = [f for f in made if f in blocked or not os.path.isfile(os.path.join(d, f)) or bytes_of(os.path.join(d, f)) != base[f]]
            if short:
                res.viol("%d/%s" % (a["seed"], what), "%s: exit status 0, but %s" % (what, ", ".join("%s %s" % (f, "is not a file" if not os.path.isfile(os.path.join(d, f)) else "has %d of %d bytes" % (os.path.getsize(os.path.join(d, f)), len(base[f]))) for f in short[:3])), fault=what)
                return
            res.cnt("complete_despite_fault")
        else:
            res.cnt("failures_reported")
            if x.panicked: res.viol("%d/%s/crash" % (a["seed"], what), "%s: the compiler crashed: %s" % (what, x.err[:300]), fault=what)
            elif OK in x.text: res.viol("%d/%s/claim" % (a["seed"], what), "%s: exit status %d, but success is claimed" % (what, x.rc), fault=what)
            elif "error" not in x.text: res.viol("%d/%s/silent" % (a["seed"], what), "%s: no error message" % what, fault=what)
        res.seen((a["seed"], what), {"flags": " ".join(fl), "fault": what, "exit status": x.rc, "sizes": szs[-3:]})

    for lim in sizes(r, szs, a["limits"]):
        clean(); judge(limited(cmd, lim, d), "file size limit %d" % lim)
    od = "out" if "-o" in fl else "."
    for k in kinds:
        if k in SINGLE:
            t = os.path.normpath(os.path.join(od, SINGLE[k]))
            for how in r.sample(["directory", "full device", "dangling"], 2):
                clean(); p = os.path.join(d, t)
                if how == "directory": os.makedirs(p)
                elif how == "full device": os.symlink("/dev/full", p)
                else: os.symlink("/nonexistent/x", p)
                judge(limited(cmd, None, d), "%s: %s" % (t, how), [t])
        else:
            t = os.path.normpath(os.path.join(od, "c_js" if k != "-c" else "c_cpp"))
            clean(); open(os.path.join(d, t), "w").close()
            judge(limited(cmd, None, d), "%s is a file" % t)
    if "-o" in fl:
        clean(); os.rmdir(d + "/out")
        judge(limited(cmd, None, d), "output directory missing")
        open(d + "/out", "w").close()
        judge(limited(cmd, None, d), "output directory is a file")
        os.remove(d + "/out")
    if a["witness"] and n:
        clean_all = run([CIRCOM, "c.circom", lv[0], "--wasm", "-c", "--prime", "bn128"], cwd=d, timeout=100)
        if clean_all.rc != 0: return
        with open(d + "/in.json", "w") as f: json.dump({"a": [str(r.randrange(1, 1 << 200)) for _ in range(n)]}, f)
        exe = build_cpp(d, "c", a["cache"])
        for name, cmd in (("C++", [os.path.abspath(exe), d + "/in.json"]), ("JS", ["node", d + "/c_js/generate_witness.js", d + "/c_js/c.wasm", d + "/in.json"])):
            w = d + "/w_" + name[0]; os.makedirs(w)
            x = run(cmd + ["w.wtns"], cwd=w, timeout=60)
            if x.rc != 0 or x.timeout: res.inc("%s reference run failed" % name); continue
            ref = bytes_of(w + "/w.wtns")
            tries = [("file size limit %d" % l, l, "w.wtns") for l in sizes(r, [len(ref)], 6 if name == "C++" else 3)] + [("full device", None, "/dev/full"), ("directory missing", None, "nowhere/w.wtns"), ("directory", None, ".")]
            for what, lim, out in tries:
                if os.path.exists(w + "/w.wtns"): os.remove(w + "/w.wtns")
                x = limited(cmd + [out], lim, w)
                res.ev(); res.cnt("witness_runs")
                if x.timeout: res.inc("witness program timed out"); continue
                full = out == "w.wtns" and os.path.isfile(w + "/w.wtns") and bytes_of(w + "/w.wtns") == ref
                if x.rc == 0 and not full:
                    res.viol("%d/%s/%s" % (a["seed"], name, what), "the %s witness program with %s exits with status 0 without a complete witness file" % (name, what), fault=what)
                res.seen((a["seed"], name, what), {"program": name, "fault": what, "exit status": x.rc})


def body(c):
    c.rule = "a run under one injected write fault whose exit status, messages and files were compared with those of the complete run"
    cache = c.sub("cache")

    def items():
        for k in range(400 if c.quick else 20000):
            yield dict(seed=c.rng.randrange(1 << 40), dir=c.scratch + "/%d" % k, prime=c.rng.choice(["bn128"] * 3 + sorted(PRIMES)), limits=8, witness=k % 8 == 3, cache=cache)
    c.absorb(pmap(job, items(), deadline=c.budget(45, 1200)))


if __name__ == "__main__":
    main("P35", body)
