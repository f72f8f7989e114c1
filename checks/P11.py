"""P11: sanitizer runs of generated C++ witness programs (ASan, UBSan, memcheck)."""
import json, os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap, run, circom
from vlib.case import make_case, guarded, PROFILES
from vlib.drive import compiled, PS
from vlib.field import PRIMES, Field
from vlib.iface import IfaceGen
from vlib.wit import build_cpp, run_cpp
from vlib.files import Bad
from vlib.mixgen import Mix
from checks.P10 import Maker

REPORT = re.compile(r"runtime error: .*|ERROR: AddressSanitizer: .*|ERROR: LeakSanitizer.*|^==\d+== (?:Invalid|Conditional jump|Use of uninit|Mismatched|Syscall param|Source and dest|Argument ).*", re.M)
OOB = "pragma circom 2.1.6;\ntemplate T(){ signal input i; signal output o; var a[3]=[1,2,3]; o <-- a[i]; }\ncomponent main = T();\n"


def hostile(r, text):
    """a JSON text derived from a valid one: wrong types, odd numbers, broken syntax, extreme sizes"""
    try: o = json.loads(text)
    except ValueError: return text
    odd = lambda: r.choice([-5, 1.5, 1e300, True, None, {}, [], "", "abc", "0x", "-", "-1", " 1", "1 ", "0b101", "0o17", "0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF",
                            "9" * r.randrange(1, 2000), 2 ** 64, 2 ** 63, -2 ** 63, 2 ** 200, ["1"] * r.randrange(1, 300), [[[["1"]]]], {"a": "1"}, [{"a": 1}], "\u00e9\u4e2d", "1\u0000"])

    def mut(x, p):
        if r.random() < p: return odd()
        if isinstance(x, list): return [mut(y, p) for y in x]
        if isinstance(x, dict): return {k: mut(y, p) for k, y in x.items()}
        return x
    k = r.random()
    if k < .45: return json.dumps(mut(o, .25))
    if k < .6 and isinstance(o, dict):
        o = dict(o)
        for _ in range(r.randrange(1, 4)): o[r.choice(["zz", "", "main", "a" * 3000, "\u4e2d", "[0]", "in[0]", "in."]) + str(r.randrange(9))] = odd()
        return json.dumps(o)
    if k < .7: return text[:r.randrange(len(text))]
    if k < .8: return r.choice(["", "[]", "3", "null", "[" * 5000, "{", '{"a":}', '{"a":1,}', "\xff", '"x"', '{"a":1}{"a":2}'])
    s = list(text)
    for _ in range(r.randrange(1, 6)):
        s[r.randrange(len(s))] = r.choice(list('{}[]",:0123456789abx- ') + ["\u00e9"])
    return "".join(s)


@guarded
def job(a, res):
    r = random.Random(a["seed"])
    texts = []
    opts = a.get("opts")
    if a["kind"] == "iface":
        g = IfaceGen(r, r.choice([0, 0, 0, 257]))
        text = g.text(r)
        m = Maker(g, r, Field(a["prime"]))
        for _ in range(3):
            o, _v = m.make(); texts.append(json.dumps(o))
            if m.ins: texts.append(json.dumps(m.break_it(o)[1]))
    elif a["kind"] == "mix":
        g = Mix(r, PRIMES[a["prime"]])
        text = g.text
        texts = [json.dumps({"x": [str(v) for v in g.inputs()]}) for _ in range(3)]
    elif a["kind"] == "oob":
        text = OOB
        texts = ['{"i":"%d"}' % i for i in (3, 4, 1000)]
    else:
        c = make_case(a["seed"], a["prime"], opts, 3)
        if c is None:
            res.cnt("outside_model"); return
        text = c.text
        texts = [json.dumps(x) for x in c.inputs]
    if a["kind"] != "oob":
        for _ in range(a["hostile"]): texts.append(hostile(r, r.choice(texts[:2])))
    res.ctx["source"] = text
    fl = a["flags"]
    if not compiled(a, res, text, fl + ["-c"]): return
    key = "%s/%s/%s/%s" % (a["kind"], a["seed"], a["prime"], " ".join(fl))
    exe = build_cpp(a["dir"], "c", a["cache"], a["san"])
    reports = []
    for n, t in enumerate(texts):
        x = run_cpp(exe, t, tag=str(n), env={"UBSAN_OPTIONS": "print_stacktrace=0"}) if a["san"] != "vg" else memcheck(exe, t, n)
        if x["timeout"]: res.inc("sanitized run timed out"); continue
        res.ev(); res.cnt("accepted" if x["w"] is not None else "refused"); res.cnt("runs_" + a["san"])
        reps = REPORT.findall(x["err"])
        if x["rc"] in (-11, -7, -4, -8) and not reps: reps = ["killed by signal %d" % -x["rc"]]
        if reps: reports.append((t, reps, x["err"]))
        else: res.seen("%s/%s/%d" % (key, a["san"], n), {"seed": a["seed"], "flags": fl, "prime": a["prime"], "sanitizer": a["san"], "exit": x["rc"]} if n < 1 else None)
    if a["kind"] == "oob":
        res.cnt("known_probe")
        if reports: res.viol("probe/runtime-index-out-of-range", "run-time array index out of range: " + reports[0][1][0])
        return
    for t, reps, err in reports[:2]:
        what = re.sub(r"0x[0-9a-f]+", "..", reps[0])
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w[\w:~]*)|(?:at|by) 0x[0-9A-F]+: (\w[\w:~]*)", err)
        res.viol(key, "%s %s: %s [%s]" % (a["san"], " ".join(fl), what[:200], " < ".join([x or y for x, y in fr][:5])), input=t[:2000])


def memcheck(exe, t, n):
    d = os.path.dirname(exe)
    ij, ow = os.path.join(d, "in_%d.json" % n), os.path.join(d, "out_%d.wtns" % n)
    with open(ij, "w") as f: f.write(t)
    x = run(["valgrind", "--error-exitcode=77", "--undef-value-errors=yes", "--main-stacksize=16000000", exe, ij, ow], cwd=d, timeout=100)
    return dict(w=[] if os.path.exists(ow) and x.rc == 0 else None, rc=x.rc, err=x.err, out=x.out, timeout=x.timeout)


def body(c):
    c.rule = "a (program, flags, input, sanitizer) run of a generated C++ witness program without a report"
    cache = c.sub("cache")
    pr = sorted(PROFILES)

    def items():
        yield dict(kind="oob", seed=0, prime="bn128", flags=["--no_asm"], san="asan", hostile=0, cache=cache, dir=os.path.join(c.scratch, "oob"))
        for k in range(2500 if c.quick else 100000):
            r = c.rng
            prime = PS[(k // 4) % 8] if k % 4 == 0 else "bn128"
            san = "vg" if k % 9 == 4 else r.choice(["asan", "asan", "gasan"])
            fl = [r.choice(["--O0", "--O1", "--O2"])] + (["--no_asm"] if r.random() < .65 else []) + (["--sanity_check", str(r.randrange(4))] if r.random() < .4 else [])
            yield dict(kind="iface" if k % 5 == 3 else "mix" if k % 5 == 1 else "prog", seed=r.randrange(1 << 40), prime=prime, opts=PROFILES[pr[k % len(pr)]], flags=fl, san=san,
                       hostile=4 if san != "vg" else 1, cache=cache, dir=os.path.join(c.scratch, str(k)))
    c.absorb(pmap(job, items(), deadline=c.budget(65, 1500)))
    c.assumptions += ["assembly is outside what the sanitizers instrument: its callers are, and half of the programs use the portable field library",
                      "programs index their arrays within bounds at run time, except in the probe recorded as a known finding"]


if __name__ == "__main__":
    main("P11", body)
