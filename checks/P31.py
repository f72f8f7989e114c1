"""P31: the meaning of a program does not depend on how it is written."""
import os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap, circom
from vlib.case import guarded, make_case
from vlib.drive import stream
from vlib.equiv import Sys
from vlib.rewrite import Rewriter
from vlib.study import canon_map
from vlib.wit import Wasm

SETS = [["--O0"], ["--O1"], ["--O2"], ["--O2", "--O2round", "2"], ["--O1", "--json"], ["--O2", "--simplification_substitution"], ["--O0", "--inspect"]]


@guarded
def job(a, res):
    case = make_case(a["seed"], a["prime"], a["opts"], ninputs=a["ninputs"])
    if case is None: res.cnt("outside_model"); return
    r = random.Random(a["seed"])
    d0 = a["dir"] + "/o"
    run = bool(a["ninputs"])
    anon = "('anon'," in repr([t.body for t in case.prog.templates.values()])
    # (the names of anonymous components depend on positions, and the order of components on names,
    # from which the simplification may start elsewhere)
    fl = (["--O0"] if anon else list(a["flags"])) + ["--r1cs", "--sym", "--prime", a["prime"]] + (["--wasm"] if run else [])
    x = circom(case.text, fl, d0)
    if x.timeout: res.inc("compile timeout"); return
    if x.rc: res.cnt("rejected"); return
    ident = {t: t for t in case.prog.templates}
    S = base = None
    w0 = Wasm.get().run(d0, "c", case.inputs) if run else None
    for k in range(a["variants"]):
        rw = Rewriter(random.Random(a["seed"] * 31 + k), case.prog)
        files, top = rw.render()
        d = a["dir"] + "/v%d" % k
        y = circom(files[top], fl, d, name=top, extra_files={f: t for f, t in files.items() if f != top})
        if y.timeout: res.inc("compile timeout"); continue
        res.ev()
        rep = dict(program=case.text, rewritten=files, flags=fl, rewritings=rw.done)
        key = "%d/%d" % (a["seed"], k)
        if y.rc: res.viol(key + "/accept", "rewritten program (%s) is rejected: %s" % (", ".join(rw.done), (y.text + y.err).strip()[-400:]), **rep); return
        one, two = open(d0 + "/c.r1cs", "rb").read(), open(d + "/m.r1cs", "rb").read()
        if anon:
            if S is None: S = Sys(d0, lambda ns: canon_map(ns, ident), "c")
            def back(ns):
                m = canon_map(ns, rw.tmap)
                return {n: re.sub(r"#([^~]*)~", lambda q: "#%s~" % rw.tmap[q.group(1)], c) for n, c in m.items()}
            V = Sys(d, back, "m")
            n = S.R.npubout + S.R.npubin + S.R.nprvin
            io = lambda X: [X.wn[w] for w in range(1, n + 1)]
            df = [n for n in ("signals", "constraints", "interface") if {"signals": S.set != V.set, "constraints": S.cons != V.cons, "interface": False}[n]]
            if df or (S.R.npubout, S.R.npubin, S.R.nprvin) != (V.R.npubout, V.R.npubin, V.R.nprvin) or io(S) != io(V): res.viol(key + "/system", "rewriting (%s) changed the %s" % (", ".join(rw.done), ", ".join(df) or "order of outputs and inputs"), **rep); return
            res.cnt("systems_compared")
        elif open(d0 + "/c.sym").read() != open(d + "/m.sym").read():
            res.viol(key + "/sym", "rewriting (%s) changed the symbol file" % ", ".join(rw.done), **rep); return
        if not anon and one != two: res.viol(key + "/r1cs", "rewriting (%s) changed the r1cs file" % ", ".join(rw.done), **rep); return
        if not anon: res.cnt("files_identical")
        for q in rw.done: res.cnt("with " + q.strip("_"))
        if run:
            for i, p, q in zip(case.inputs, w0, Wasm.get().run(d, "m", case.inputs)):
                if anon and p["w"] and q["w"]: p, q = dict(p, w=S.values(p["w"])), dict(q, w=V.values(q["w"]))
                if p["w"] != q["w"] or p["log"] != q["log"]: res.viol(key + "/witness", "rewriting (%s) changed the %s" % (", ".join(rw.done), "log" if p["w"] == q["w"] else "witness or its refusal (%s against %s)" % (p["err"], q["err"])), input=i, **rep); return
                res.cnt("witnesses_compared" if p["w"] else "refusals_compared")
        res.seen((a["seed"], k), {"rewritings": rw.done, "files": len(files), "signals": one.__len__(), "anonymous": anon})


def body(c):
    c.rule = "a program and a rewriting of it whose r1cs files have the same bytes, whose symbols agree, and that gave the same witnesses"

    def items():
        for s in stream(c, 40000, 400000, flags=SETS, variants=3):
            s["ninputs"] = 2 if s["k"] % 3 == 0 else 0
            yield s
    c.absorb(pmap(job, items(), deadline=c.budget(float(os.environ.get("B", "35")), 1200)))


if __name__ == "__main__":
    main("P31", body)
