#!/usr/bin/env python3
"""P34: the r1cs reader inverts the writer.  A driver linked with the real library performs random
histories of writer calls; the file is read back by the library and by an independent parser of the
documented format, and both are compared with what was written."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import random
from vlib.core import main, pmap
from vlib.case import guarded
from vlib.field import PRIMES
from vlib.files import Reader, Bad
from vlib import harness

DRV = None


def drv():
    global DRV
    if DRV is None: DRV = harness.Driver(PATH)
    return DRV


def lc(d): return ",".join("%d:%d" % (k, d[k]) for k in sorted(d)) if d else "-"


def number(r, bits):
    k = r.random()
    if k < .3: return r.randrange(0, min(1 << bits, 300))
    if k < .5: return (1 << bits) - 1 - r.randrange(0, min(1 << bits, 4))
    if k < .7: return (1 << r.randrange(0, bits)) - r.choice([0, 0, 1])
    return r.getrandbits(r.randrange(1, bits + 1))


def make(r):
    x = dict(fs=r.choice([8, 8, 32, 32, 32, 48, 16, 64, 4, 1, 40]))
    big = r.random() < .04; sz = lambda *l: r.choice(l)
    x["p"] = number(r, 8 * x["fs"]) or 7 if r.random() < .5 or x["fs"] < 32 else PRIMES[r.choice(sorted(PRIMES))]
    fb = 8 * x["fs"]
    nid = r.choice([3, 300, 70000, 1 << 32])
    def comb(): return {(r.randrange(nid) if r.random() < .8 else number(r, 32)): number(r, fb) for _ in range(sz(0, 0, 1, 1, 2, 3, 8) if not big or r.random() < .95 else 700)}
    x["C"] = [(comb(), comb(), comb()) for _ in range(sz(0, 1, 2, 5, 20) if not big else sz(300, 2000))]
    x["S"] = [number(r, 64) if r.random() < .6 else i for i in range(sz(0, 1, 2, 5, 30) if not big else sz(1500, 9000))]
    x["H"] = [number(r, 32), number(r, 32), number(r, 32), number(r, 64)]
    x["custom"] = r.random() < .6
    name = lambda: "".join(chr(r.choice([r.randrange(33, 127), r.randrange(97, 123), r.randrange(0x80, 0xd7ff), r.randrange(0x10000, 0x10ffff), 1, 32])) for _ in range(sz(0, 1, 3, 10) if not big or r.random() < .9 else 9000))
    if x["custom"]:
        x["U"] = [(name(), [number(r, fb) for _ in range(sz(0, 1, 3) if not big or r.random() < .9 else 3000)]) for _ in range(sz(0, 1, 3, 8) if not big else 60)]
        x["A"] = [(number(r, 32) if r.random() < .2 else r.randrange(8), [number(r, 64) for _ in range(sz(0, 1, 3) if not big or r.random() < .9 else 3000)]) for _ in range(sz(0, 1, 3, 8) if not big else 200)]
    x["order"] = r.sample("HCSUA" if x["custom"] else "HCS", 5 if x["custom"] else 3)
    if r.random() < .3: x["order"] = list("HCSUA" if x["custom"] else "HCS")
    return x


def text(x):
    n = {"H": lambda: "H;%d;%d;%d;%d;%d;%d;%d" % (x["p"], len(x["S"]), x["H"][0], x["H"][1], x["H"][2], x["H"][3], len(x["C"])),
         "C": lambda: ";".join(["C"] + ["/".join(map(lc, c)) for c in x["C"]]), "S": lambda: ";".join(["S"] + [str(v) for v in x["S"]]),
         "U": lambda: ";".join(["U"] + ["%s/%s" % (a.encode().hex(), ",".join(map(str, b))) for a, b in x["U"]]),
         "A": lambda: ";".join(["A"] + ["%d/%s" % (a, ",".join(map(str, b))) for a, b in x["A"]])}
    return {k: n[k]() for k in x["order"]}


def parse(path):
    """the documented format, read independently and to the last byte"""
    r = Reader(open(path, "rb").read(), "file")
    if r.take(4) != b"r1cs" or r.u32() != 1: raise Bad("magic or version")
    secs = {}
    for _ in range(r.u32()):
        t, n = r.u32(), r.u64()
        if t in secs: raise Bad("section %d twice" % t)
        secs[t] = Reader(r.take(n), "section %d" % t)
    if r.i != len(r.b): raise Bad("%d bytes after the last section" % (len(r.b) - r.i))
    h = secs[1]; fs = h.u32(); p = h.big(fs); w, o, i, q = h.u32(), h.u32(), h.u32(), h.u32(); nl, nc = h.u64(), h.u32()
    c = secs[2]; cons = []
    for _ in range(nc):
        t = []
        for _ in range(3):
            m = [(c.u32(), c.big(fs)) for _ in range(c.u32())]
            if len(dict(m)) != len(m): raise Bad("a wire twice in a combination")
            t.append(dict(m))
        cons.append(tuple(t))
    s = secs[3]; labels = [s.u64() for _ in range(w)]; used = app = None
    if 4 in secs:
        u = secs[4]; used = []
        for _ in range(u.u32()):
            b = b""
            while True:
                k = u.take(1)
                if k == b"\0": break
                b += k
            used.append((b.decode(), [u.big(fs) for _ in range(u.u32())]))
        a = secs[5]; app = [(a.u32(), [a.u64() for _ in range(a.u32())]) for _ in range(a.u32())]
    for t in secs.values():
        if t.i != len(t.b): raise Bad("%s has %d bytes more than its contents" % (t.what, len(t.b) - t.i))
    return dict(fs=fs, p=p, n=[w, o, i, q, nl, nc], C=cons, S=labels, U=used, A=app)


@guarded
def job(a, res):
    os.makedirs(a["dir"], exist_ok=True)
    r = random.Random(a["seed"]); f = a["dir"] + "/x.r1cs"
    for k in range(20):
        x = make(r); key = "history/%d/%d" % (a["seed"], k); t = text(x)
        if r.random() < .15: open(f, "wb").write(b"\xff" * r.choice([10, 100000]))  # an older, longer file is replaced
        rep = dict(calls=[t[s][:4000] for s in x["order"]], field_size=x["fs"], custom=x["custom"])
        cmd = "W %s %d %d %s" % (f, x["fs"], x["custom"], " ".join(t[s] for s in x["order"]))
        w = drv().ask(cmd)
        if w != "ok": res.viol(key + "/write", "writing failed: " + w[:300], **rep); return
        rd = drv().ask("R " + f); res.ev()
        want = {"H": "H;%d;%d;%d;%d;%d;%d;%d;%d" % (x["p"], x["fs"], len(x["S"]), x["H"][0], x["H"][1], x["H"][2], x["H"][3], len(x["C"])), **{s: t[s] for s in x["order"] if s != "H"}}
        got = rd.split(" ") if not rd.startswith(("ERR", "PANIC", "DIED")) else None
        if got is None: res.viol(key + "/read", "the file written in the order %s does not read back: %s" % ("".join(x["order"]), rd[:300]), **rep); return
        g = {s[0]: s for s in got}
        for s in "HCSUA":
            if g.get(s) != want.get(s):
                A, B = (want.get(s) or "nothing").split(";"), (g.get(s) or "nothing").split(";"); i = next((i for i in range(min(len(A), len(B))) if A[i] != B[i]), min(len(A), len(B)))
                res.viol(key + "/" + s, "section %s written in the order %s with %s reads back with %s at entry %d (%d and %d entries)" % (s, "".join(x["order"]), str(A[i:i + 1])[:300], str(B[i:i + 1])[:300], i, len(A), len(B)), **rep); return
        try: b = parse(f)
        except (Bad, KeyError, UnicodeDecodeError) as e: res.viol(key + "/bytes", "the file is not of the documented format: %s" % e, **rep); return
        mine = dict(fs=x["fs"], p=x["p"], n=[len(x["S"])] + x["H"] + [len(x["C"])], C=x["C"], S=x["S"], U=x.get("U"), A=x.get("A"))
        for s in mine:
            if mine[s] != b[s]: res.viol(key + "/bytes-" + s, "the bytes hold %s %s instead of %s" % (s, str(b[s])[:300], str(mine[s])[:300]), **rep); return
        res.cnt("constraints", len(x["C"])); res.cnt("labels", len(x["S"])); res.cnt("gates", len(x.get("U", []))); res.cnt("applications", len(x.get("A", []))); res.cnt("bytes", os.path.getsize(f))
        res.seen(("".join(x["order"]), x["fs"], len(x["C"]) > 100), {"order": "".join(x["order"]), "field_size": x["fs"], "constraints": len(x["C"]), "labels": len(x["S"]), "custom": x["custom"]})


def body(c):
    global PATH
    PATH = os.environ.get("HY") or harness.build("r1cs", cfg="vp_hooks")
    c.rule = "a history of writer calls (order of sections, field size, size class) read back and compared"

    def items():
        for k in range(20000 if c.quick else 400000):
            yield dict(seed=c.rng.randrange(1 << 40), dir=c.scratch + "/%d" % k)
    c.absorb(pmap(job, items(), deadline=c.budget(float(os.environ.get("B", "25")), 900)))
    c.assumptions.append("every section is written once, the header announces the numbers of constraints and wires that are written, numbers fit their fields")


if __name__ == "__main__":
    main("P34", body)
