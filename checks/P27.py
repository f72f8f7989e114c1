"""P27: --inspect warns about exactly the signals that appear in no constraint."""
import os, random, re, sys
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap, circom
from vlib.case import guarded, make_case, PROFILES
from vlib.inspectgen import Gen
from vlib.verdict import OK


def warnings(text):
    """[(kind, template base name, arguments, group or signal, number, examples)], lines of suggestions"""
    out, sug = [], set()
    blocks = re.split(r"(?m)^(?=warning\[|error\[)", text)
    for b in blocks:
        if b.startswith("warning[CA0"):
            m = re.match(r'warning\[CA0\d\]: In template "(\w+)\((.*)\)": (Local signal|Subcomponent input/output signal) (\S+) does not appear', b)
            if m: out.append(("local" if m.group(3)[0] == "L" else "sub", m.group(1), m.group(2), m.group(4), 1, (m.group(4),))); continue
            m = re.match(r'warning\[CA0\d\]: In template "(\w+)\((.*)\)": Array of (local signals|subcomponent input/output signals) (\S+) contains a total of (\d+) signals that do not appear', b)
            if not m: return None, None
            ex = re.search(r"For example: (\S+), (\S+)\.\s", b)
            out.append(("local" if m.group(3)[0] == "l" else "sub", m.group(1), m.group(2), m.group(4), int(m.group(5)), ex.groups() if ex else ()))
        elif b.startswith("warning[T3002]"):
            m = re.search(r'┌─ ".*?":(\d+):', b)
            if m: sug.add(int(m.group(1)))
    return out, sug


def group(l):
    h, _, last = l.rpartition(".")
    return (h + "." if h else "") + last.split("[")[0]


def outputs(d):
    o = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            if not f.endswith(".circom"): o[os.path.relpath(p, d)] = open(p, "rb").read()
    return o


def known(a, res):
    """programs with the signals of every constraint known"""
    r = random.Random(a["seed"])
    g = Gen(r)
    text = g.text()
    facts, arrows, maybe = g.facts()
    fl = r.choice([["--O0"], ["--O1"], ["--O2"], ["--O0", "--r1cs", "--sym"], ["-c"], []])
    x = circom(text, fl + ["--inspect"], a["dir"])
    if x.timeout: res.inc("compile timeout"); return
    k = "known/%d" % a["seed"]
    if x.rc or OK not in x.text: res.viol(k + "/reject", "the program is not accepted: %s" % x.text.strip()[-500:], program=text, flags=fl); return
    res.ev(); res.cnt("programs")
    got, sug = warnings(x.text)
    if got is None: res.viol(k + "/form", "a warning of another form: %s" % x.text[-400:], program=text); return
    got = [w for w in got if not re.match(r"T\d+_\d+_\d+", w[3])]
    want = Counter()
    det = {}
    for (nm, n, kk, t), gr, used in facts:
        for (kind, gp), ls in gr.items():
            key = (kind, nm, gp, len(ls), "" if t is not None else "%d,%d" % (n, kk) if nm != "Main" else "")
            want[key] += 1
            det.setdefault(key, set()).update(ls)
        res.cnt("instances"); res.cnt("signals_unconstrained", sum(len(l) for l in gr.values())); res.cnt("signals_constrained", len(used))
    tagged = {T.name for T in g.ts if T.tag}
    have = Counter((w[0], w[1], group(w[3]), w[4], "" if w[1] in tagged else w[2]) for w in got)
    for w in got:
        key = (w[0], w[1], group(w[3]), w[4], "" if w[1] in tagged else w[2])
        for s in w[5]:
            if key in det and s not in det[key]: res.viol(k + "/example", "the warning about %s of %s names %s, which appears in a constraint" % (w[3], w[1], s), program=text, flags=fl); return
        if w[4] == 1 and key in det and w[3] not in det[key]: res.viol(k + "/name", "the warning about %s of %s: the signal appears in a constraint" % (w[3], w[1]), program=text, flags=fl); return
    if have != want:
        m, e = list((want - have).items())[:3], list((have - want).items())[:3]
        res.viol(k + "/warnings", "expected warnings missing: %s; unexpected warnings: %s" % (m, e), program=text, flags=fl); return
    if sug - maybe != arrows - maybe: res.viol(k + "/arrows", "assignments that could be constraints: lines %s, suggested: %s" % (sorted(arrows - sug - maybe)[:5], sorted(sug - arrows - maybe)[:5]), program=text, flags=fl); return
    for w in want: res.seen((w[0], w[3], w[2].count("."), a["seed"]), {"template": w[1], "group": w[2], "unconstrained": w[3], "kind": w[0]})
    res.cnt("warnings", sum(want.values())); res.cnt("suggestions", len(sug))


def quiet(a, res):
    """inspection changes nothing else"""
    r = random.Random(a["seed"])
    if r.random() < .5: text = Gen(r).text()
    else:
        c = make_case(r.randrange(1 << 40), "bn128", PROFILES[r.choice(sorted(PROFILES))], 0)
        if c is None: res.cnt("outside_model"); return
        text = c.text
        if r.random() < .2: text = text.replace("==", "===", 1)
    fl = [r.choice(["--O0", "--O1", "--O2"]), "--r1cs", "--sym", "--json"] + r.choice([["--wasm"], ["-c"], ["--wat"], ["--simplification_substitution"]])
    xs = [circom(text, fl + e, a["dir"] + "/%d" % i) for i, e in enumerate([[], ["--inspect"]])]
    if xs[0].timeout or xs[1].timeout: res.inc("compile timeout"); return
    res.ev(); res.cnt("compared_compilations")
    if xs[0].rc != xs[1].rc: res.viol("quiet/%d/status" % a["seed"], "exit status %s without and %s with --inspect: %s" % (xs[0].rc, xs[1].rc, xs[1].text[-300:]), program=text, flags=fl); return
    o = [outputs(a["dir"] + "/%d" % i) for i in (0, 1)]
    if o[0] != o[1]:
        res.viol("quiet/%d/artefacts" % a["seed"], "artefacts differ with --inspect: %s" % [f for f in set(o[0]) | set(o[1]) if o[0].get(f) != o[1].get(f)], program=text, flags=fl); return
    res.seen(("quiet", a["seed"])); res.cnt("artefacts_compared", len(o[0]))


@guarded
def job(a, res): {"known": known, "quiet": quiet}[a["mode"]](a, res)


def body(c):
    c.rule = "a group of signals of an instance in no constraint, for which the warning was given once with the right number"

    def items():
        for k in range(40000 if c.quick else 400000):
            yield dict(seed=c.rng.randrange(1 << 40), dir=c.scratch + "/%d" % k, mode="quiet" if k % 5 == 4 else "known")
    c.absorb(pmap(job, items(), deadline=c.budget(35, 1200)))


if __name__ == "__main__":
    main("P27", body)
