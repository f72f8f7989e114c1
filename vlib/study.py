"""Comparison of what circom produced for one program against the reference."""
import re
from .files import poly, normalise
from .lang import Interp, Skip, Invalid, RunFail

ANON = re.compile(r"^(.*)_(\d+)_(\d+)$")


def anon_positions(prog):
    """id(anon node) -> source position rank (pre-order of the printed text)"""
    pos = {}

    def walk(x):
        if isinstance(x, tuple) or isinstance(x, list):
            if isinstance(x, tuple) and x and x[0] == "anon":
                pos.setdefault(id(x), len(pos))
            for y in x: walk(y)
    for kind, n in prog.order:
        walk(prog.templates[n].body if kind == "t" else prog.funcs[n][1] if kind == "f" else prog.buses[n][1])
    return pos


class RefRun(Interp):
    """Interp whose anonymous components carry source positions, so that their names
    can be matched with the compiler's generated ones."""

    def __init__(self, prog, field, **k):
        Interp.__init__(self, prog, field, **k)
        self.apos = anon_positions(prog)

    def run_anon(self, env, e):
        _, t, params, ins, names, par = e
        cur = self.cur
        if not hasattr(cur, "anons"): cur.anons = {}
        k = self.apos[id(e)]
        seq = cur.anons.setdefault(k, [])
        pv = [self.ev(env, x) for x in params]
        iv = [self.ev(env, x) for x in ins]
        path = "%s.#%s~%d~%d" % (cur.path, t, k, len(seq))
        seq.append(path)
        inst = self.instantiate(t, pv, path)
        cur.subs.append(inst)
        inputs = [n for n in inst.sig_order if inst.kinds[n] == "input"]
        for n, v in zip(names or inputs, iv):
            self.assign_signal(inst.sigs[n], v, inst, True)
        if not inst.ran: raise Invalid("missing input")
        return [self.read_sig(inst.sigs[n]) for n in inst.sig_order if inst.kinds[n] == "output"]


def split_name(n):
    return n.split(".")


def canon_map(names, templates):
    """compiler signal name -> canonical name.  Anonymous component segments
    `T_line_offset[i]` become `#T~rank~idx` with rank among siblings by source offset."""
    groups = {}
    parsed = {}
    for n in names:
        segs = n.split(".")
        parsed[n] = segs
        pre = ""
        for s in segs:
            b = s.split("[")[0]
            m = ANON.match(b)
            if m and m.group(1) in templates:
                groups.setdefault(pre, {}).setdefault((int(m.group(2)), int(m.group(3))), set()).add(s)
            pre += "." + s
    out = {}
    ranks = {}
    for pre, g in groups.items():
        for k, key in enumerate(sorted(g)):
            def idx(s): return [int(x) for x in re.findall(r"\[(\d+)\]", s)]
            for j, s in enumerate(sorted(g[key], key=idx)):
                ranks[(pre, s)] = "#%s~%d~%d" % (ANON.match(s.split("[")[0]).group(1), k, j)
    for n, segs in parsed.items():
        pre, o = "", []
        for s in segs:
            o.append(ranks.get((pre, s), s))
            pre += "." + s
        out[n] = ".".join(o)
    return out


def ref_canon(it):
    """reference path -> canonical name (ranks among executed siblings)"""
    ren = {}

    def visit(inst, newpath):
        for n in inst.sig_order:
            for p in it.flat(inst.sigs[n]):
                ren[p] = newpath + p[len(inst.path):]
        rank = {}
        for r, k in enumerate(sorted(getattr(inst, "anons", {}))): rank[k] = r
        for s in inst.subs:
            seg = s.path[len(inst.path) + 1:]
            if seg.startswith("#"):
                t, k, j = seg[1:].split("~")
                seg = "#%s~%d~%s" % (t, rank[int(k)], j)
            visit(s, newpath + "." + seg)
    visit(it.main, "main")
    return ren


class Mismatch(Exception):
    pass


def sym_names(sym, it):
    """list of (label, wire, comp, canonical name); raises Mismatch when the sym file
    does not list exactly the signals of the instantiated circuit"""
    cm = canon_map([s[3] for s in sym], it.prog.templates)
    rc = ref_canon(it)
    want, got = set(rc.values()), [cm[s[3]] for s in sym]
    if len(set(got)) != len(got):
        raise Mismatch("sym file repeats a signal name")
    if set(got) != want:
        extra, miss = sorted(set(got) - want)[:3], sorted(want - set(got))[:3]
        raise Mismatch("sym file does not list exactly the circuit's signals: unexpected %s missing %s" % (extra, miss))
    vals = {rc[p]: v for p, v in it.vals.items()}
    return [(l, w, c, cm[n]) for l, w, c, n in sym], vals, rc


def expected_constraints(it, rc):
    """multiset of normalised constraint polynomials the source states, over canonical names"""
    from collections import Counter
    out = Counter()
    p = it.F.p
    for pl in it.cons:
        q = {}
        for k, v in pl.items():
            q[tuple(sorted(rc[x] for x in k))] = v
        n = normalise(q, p)
        if n:
            out[n] += 1
    return out


def file_constraints(r1cs, wire_name):
    from collections import Counter
    out = Counter()
    for c in r1cs.cons:
        pl = poly(c, r1cs.p, lambda w: wire_name[w])
        q = {}
        for k, v in pl.items():
            q[tuple(sorted(k))] = v
        n = normalise(q, r1cs.p)
        out[n] += 1
    return out


def witness_mismatch(w, names, vals):
    """first signal whose witness value differs from the reference, or None"""
    if w[0] != 1:
        return ("one", w[0], 1)
    for l, wi, c, n in names:
        if wi >= 0 and n in vals and w[wi] != vals[n]:
            return (n, w[wi], vals[n])
    return None


_ESC = {"n": "\n", "t": "\t", "r": "\r", "'": "'", "\\": "\\"}


def unescape(s):
    return re.sub(r"\\([ntr'\\])", lambda m: _ESC[m.group(1)], s)


def log_lines(it):
    """printed lines; a string of the program may hold line breaks"""
    out = []
    for l in it.logs:
        out += " ".join(unescape(x) if isinstance(x, str) else str(x) for x in l if x != "").split("\n")
    return out


def log_mismatch(it, got):
    """None, or a description of how the printed lines differ from the program's log statements"""
    want = log_lines(it)
    got = "\n".join(got).split("\n") if got else []
    if want == got: return None
    if it.loose_logs and sorted(want) == sorted(got): return None
    for k, (a, b) in enumerate(zip(want, got)):
        if a != b: return "line %d is %r, expected %r" % (k, b, a)
    return "%d lines printed, expected %d" % (len(got), len(want))
