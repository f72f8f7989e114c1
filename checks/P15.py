"""P15: the symbol file lists the instantiated signals, their labels, wires and components."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap
from vlib.case import make_case, guarded, PROFILES
from vlib.drive import stream, compiled
from vlib.files import read_r1cs, read_sym
from vlib.study import sym_names, Mismatch

FLAGS = [["--O0"], ["--O1"], ["--O2"], ["--O2round", "1"], ["--O1", "--wasm"], ["--O2", "--use_old_simplification_heuristics"]]


def key_of(i):
    d = lambda v: [d(x) for x in v] if isinstance(v, list) else str(getattr(v, "c", v))
    return "%s(%s)" % (i.t.name, d(list(i.params)))


@guarded
def job(a, res):
    c = make_case(a["seed"], a["prime"], a["opts"], 1)
    if c is None:
        res.cnt("outside_model"); return
    res.ctx["source"] = c.text
    fl = " ".join(a["flags"])
    key = "%s/%s/%s" % (a["seed"], a["prime"], fl)
    if not compiled(a, res, c.text, a["flags"] + ["--r1cs", "--sym"]): return
    R, sym = read_r1cs(a["dir"] + "/c.r1cs"), read_sym(a["dir"] + "/c.sym")
    res.ev(); res.cnt("symbols_checked", len(sym))

    def bad(k, what): res.viol(key + "/" + k, "%s: %s" % (fl, what))
    try:
        names, vals, rc = sym_names(sym, c.it)
    except Mismatch as e:
        bad("names", str(e)); return
    labels = [l for l, *_ in sym]
    if labels != list(range(1, len(sym) + 1)): bad("labels", "labels are not 1, 2, 3, ...: %s" % [l for l, k in zip(labels, range(1, len(sym) + 1)) if l != k][:3])
    if R.nlabels != len(sym) + 1: bad("count", "%d symbols for %d labels" % (len(sym), R.nlabels))
    wire = {l: w for w, l in enumerate(R.labels)}
    for l, w, _, n in sym:
        if w != wire.get(l, -1): bad("wire", "%s has label %d and wire %d, the wire map says %d" % (n, l, w, wire.get(l, -1))); break
    used = {w for t in R.cons for d in t for w in d}
    if a["flags"][0] != "--O0":
        for l, w, _, n in sym:
            if w > R.npubout + R.npubin and w not in used: bad("unused", "%s has wire %d, which no constraint mentions" % (n, w)); break
    # one component number per instance; it is shared by instances of the same template only
    inst_of, num, seen, tmpl = {}, {}, {}, {}

    def visit(i):
        tmpl[i.path] = key_of(i)
        for n in i.sig_order:
            for q in c.it.flat(i.sigs[n]): inst_of[rc[q]] = i.path
        for s in i.subs: visit(s)
    visit(c.it.main)
    for _, _, comp, n in names:
        i = inst_of.get(n)
        if i is None: res.cnt("signals_of_unknown_instance"); continue
        if num.setdefault(i, comp) != comp: bad("component", "signals of %s have component numbers %d and %d" % (i, num[i], comp)); break
        if seen.setdefault(comp, tmpl[i]) != tmpl[i]: bad("component", "%s is an instance of %s and shares component number %d with an instance of %s" % (i, tmpl[i], comp, seen[comp])); break
    res.cnt("instances_checked", len(num))
    if len(num) > 1: res.seen(key, {"seed": a["seed"], "flags": fl, "symbols": len(sym), "instances": len(num), "eliminated": sum(1 for s in sym if s[1] < 0)})


def body(c):
    c.rule = "a (program with several component instances, flags) whose symbol file was compared line by line with the instantiated circuit"
    c.absorb(pmap(job, stream(c, 6000, 300000, FLAGS), deadline=c.budget(35, 1000)))
    c.assumptions.append("the names the compiler gives to anonymous components are matched by order of source position")


if __name__ == "__main__":
    main("P15", body)
