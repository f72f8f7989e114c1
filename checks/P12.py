"""P12: parallel witness programs under ThreadSanitizer, injected delays and thread limits."""
import glob, json, os, random, re, signal, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap, run, circom, VERIF, spawn
from vlib.case import guarded, make_case, PROFILES
from vlib.drive import compiled, PS
from vlib.both import wasm_outs
from vlib.field import PRIMES
from vlib.mixgen import Mix
from vlib.files import read_wtns, Bad
from vlib.pargen import ParGen, plain
from vlib.wit import build_cpp

RACE = re.compile(r"WARNING: ThreadSanitizer: .*|ERROR: ThreadSanitizer: .*|FATAL: ThreadSanitizer.*")
LIMIT = re.compile(r"(#define\s+NMUTEXES\s+)\d+")


def switches(pid):
    n = []
    for f in glob.glob("/proc/%d/task/*/status" % pid):
        try: n += [l for l in open(f) if l.startswith(("voluntary", "nonvoluntary", "Pid"))]
        except OSError: pass
    return "".join(sorted(n))


def runp(exe, inp, tag, timeout, env):
    """-> dict(w, rc, out, err, state) where state is done, slow, or stuck (no thread ran for seconds)"""
    d = os.path.dirname(exe)
    ij, ow = os.path.join(d, "in_%s.json" % tag), os.path.join(d, "out_%s.wtns" % tag)
    with open(ij, "w") as f: f.write(inp if isinstance(inp, str) else json.dumps(inp))
    if os.path.exists(ow): os.remove(ow)
    e = dict(os.environ); e.update(env)
    with open(ow + ".o", "wb") as fo, open(ow + ".e", "wb") as fe:
        p = spawn([exe, ij, ow], cwd=d, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=e)
        peak, end, state = 1, time.time() + timeout, "done"
        while p.poll() is None:
            try: peak = max(peak, len(os.listdir("/proc/%d/task" % p.pid)))
            except OSError: pass
            if time.time() > end:
                a = switches(p.pid); time.sleep(6); b = switches(p.pid)
                if p.poll() is not None: break
                state = "stuck" if a == b else "slow"
                os.killpg(p.pid, signal.SIGKILL); p.wait(); break
            time.sleep(.004)
    out, err = [open(ow + x, errors="replace").read() for x in (".o", ".e")]
    w = read_wtns(open(ow, "rb").read()) if state == "done" and p.returncode == 0 and os.path.exists(ow) else None
    return dict(w=w, rc=p.returncode, out=out, err=err, state=state, peak=peak)


def delay_lib(cache):
    so = os.path.join(cache, "delay.so")
    if not os.path.exists(so):
        r = run(["gcc", "-O1", "-shared", "-fPIC", "-o", so + ".tmp", os.path.join(VERIF, "native", "delay.c"), "-ldl", "-lpthread"])
        if r.rc: raise RuntimeError("delay library: " + r.err)
        os.rename(so + ".tmp", so)
    return so


@guarded
def job(a, res):
    r = random.Random(a["seed"])
    if a["gen"] == "par":
        g = ParGen(r, many=a["many"], depth=r.choice([1, 2, 3]))
        text = g.text()
        inputs = [g.inputs(r) for _ in range(2)]
    elif a["gen"] == "mix":
        for _ in range(20):
            m = Mix(r, PRIMES[a["prime"]], parallel=True)
            if "parallel" in m.text: break
        text, inputs = m.text, [{"x": [str(v) for v in m.inputs()]} for _ in range(2)]
    else:
        c = make_case(a["seed"], a["prime"], PROFILES["par"], 2)
        if c is None or "parallel" not in c.text:
            res.cnt("outside_model"); return
        text, inputs = c.text, c.inputs
    res.ctx["source"] = text
    key = "%s/%s/%s/%s" % (a["gen"], a["seed"], a["prime"], " ".join(a["flags"]))
    if not compiled(a, res, text, a["flags"] + ["-c", "--wasm"]): return
    d2 = a["dir"] + "/plain"
    if not compiled(a, res, plain(text), a["flags"] + ["-c", "--wasm"], d=d2):
        res.viol(key + "/accept", "accepted with parallel marks, rejected without"); return
    want = wasm_outs(d2, inputs)
    mine = wasm_outs(a["dir"], inputs)
    for x, y in zip(want, mine):
        if x.w != y.w or x.logs != y.logs: res.viol(key + "/wasm", "WASM program changes with the parallel marks: %s / %s" % (x.brief(), y.brief()))
    cd = a["dir"] + "/c_cpp"
    limited = 0
    if a["limit"]:
        h = cd + "/calcwit.hpp"
        s, limited = LIMIT.subn(lambda m: m.group(1) + str(a["limit"]), open(h).read())
        open(h, "w").write(s)
    if re.search(r"std::thread|pthread", open(cd + "/c.cpp").read()) is None: res.cnt("no_thread_code"); return
    kinds = ["tsan"] if a["k"] % 2 else ["plain"]
    for kind in kinds:
        exe = build_cpp(a["dir"], "c", a["cache"], kind)
        for n, (inp, w) in enumerate(zip(inputs, want)):
            for rep in range(a["reps"]):
                out = os.path.join(a["dir"], "d_%s_%d_%d" % (kind, n, rep))
                env = {"TSAN_OPTIONS": "exitcode=67:halt_on_error=0:report_thread_leaks=0", "VP_DELAY_SEED": str(a["seed"] % 99991 + rep * 7919), "VP_DELAY_OUT": out,
                       "VP_DELAY_US": str([0, 200, 600 if a["many"] > 8 else 2000, 50][(rep + a["k"]) % 4])}
                if rep: env["LD_PRELOAD"] = a["so"]
                x = runp(exe, inp, "%s%d_%d" % (kind, n, rep), 45, env)
                res.ev(); res.cnt("runs_" + kind); res.cnt("threads_peak_sum", x["peak"])
                if limited: res.cnt("limited_runs")
                if os.path.exists(out):
                    dl, cr, lk, wt, nt = map(int, open(out).read().split()[:5])
                    for q, v in zip(("delays", "threads_created", "locks", "waits", "signals"), (dl, cr, lk, wt, nt)): res.cnt(q, v)
                    if cr: res.seen("%s/%d/%s/%d" % (key, n, kind, rep), {"seed": a["seed"], "kind": kind, "threads": cr, "waits": wt, "delays": dl, "limit": a["limit"]} if rep == 1 else None)
                reps = RACE.findall(x["err"])
                if reps:
                    fr = re.findall(r"#\d+ ([\w:~]+)", x["err"])
                    res.viol(key + "/race", "%s [%s]" % (reps[0], " < ".join(fr[:4])), input=inp, limit=a["limit"]); break
                if x["state"] == "stuck":
                    res.viol(key + "/deadlock", "the parallel program stopped making progress (thread limit %s, delay seed %s)" % (a["limit"] or "default", env["VP_DELAY_SEED"]), input=inp, limit=a["limit"]); break
                if x["state"] == "slow": res.inc("parallel run too slow"); break
                if (x["w"] is None) != (w.w is None):
                    res.viol(key + "/outcome", "parallel C++ %s, the program without parallel marks: %s" % ("exit %s %s" % (x["rc"], x["err"][-200:]) if x["w"] is None else "gives a witness", w.brief()), input=inp); break
                if x["w"] != w.w:
                    i = [i for i, (p, q) in enumerate(zip(x["w"], w.w)) if p != q]
                    res.viol(key + "/witness", "parallel witness differs from the sequential one at wires %s" % i[:5], input=inp); break
                if w.w is not None and sorted(x["out"]) != sorted("".join(l + "\n" for l in w.logs)):
                    res.viol(key + "/logs", "parallel program prints other text: %r against lines %s" % (x["out"][:300], sorted(w.logs)[:4]), input=inp); break


def body(c):
    c.rule = "an observed run of a parallel witness program that created threads, with its outcome compared and no race reported"
    cache = c.sub("cache")
    so = delay_lib(cache)

    def items():
        for k in range(2000 if c.quick else 100000):
            r = c.rng
            prime = PS[(k // 4) % 8] if k % 4 == 0 else "bn128"
            yield dict(seed=r.randrange(1 << 40), gen="prog" if k % 6 == 5 else "mix" if k % 6 == 2 else "par", many=r.choice([2, 4, 8, 40, 70]), prime=prime, k=k, so=so, cache=cache,
                       limit=r.choice([0, 0, 0, 1, 2, 3]), reps=3 if c.quick else 6,
                       flags=[r.choice(["--O0", "--O1", "--O2"])] + (["--no_asm"] if r.random() < .5 else []), dir=os.path.join(c.scratch, str(k)))
    # four programs at a time: each has several threads
    c.absorb(pmap(job, items(), deadline=c.budget(70, 1500), procs=6))
    c.assumptions += ["schedules are those the kernel and the injected delays produced, not all of them",
                      "log output of different threads may interleave within a line: the multiset of printed characters is compared"]


if __name__ == "__main__":
    main("P12", body)
