"""Independent readers for the artefacts circom writes. Any malformation raises Bad."""
import json, struct


class Bad(Exception):
    pass


class Reader:
    def __init__(self, b, what):
        self.b, self.i, self.what = b, 0, what

    def take(self, n):
        if self.i + n > len(self.b):
            raise Bad("%s: truncated at byte %d (need %d more)" % (self.what, self.i, n))
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def u32(self): return struct.unpack("<I", self.take(4))[0]
    def u64(self): return struct.unpack("<Q", self.take(8))[0]
    def big(self, n): return int.from_bytes(self.take(n), "little")


class R1CS:
    pass


def read_r1cs(path, strict=True):
    r = Reader(open(path, "rb").read(), path.split("/")[-1])
    if r.take(4) != b"r1cs":
        raise Bad("bad magic")
    if r.u32() != 1:
        raise Bad("bad version")
    n = r.u32()
    secs = {}
    order = []
    for _ in range(n):
        t, size = r.u32(), r.u64()
        if t in secs:
            raise Bad("section %d appears twice" % t)
        secs[t] = r.take(size)
        order.append(t)
    if r.i != len(r.b):
        raise Bad("%d trailing bytes after the %d announced sections" % (len(r.b) - r.i, n))
    for t in (1, 2, 3):
        if t not in secs:
            raise Bad("missing section %d" % t)
    h = Reader(secs[1], "header")
    o = R1CS()
    o.n8 = h.u32()
    if o.n8 % 8:
        raise Bad("field size %d not a multiple of 8" % o.n8)
    o.p = h.big(o.n8)
    o.nwires, o.npubout, o.npubin, o.nprvin = h.u32(), h.u32(), h.u32(), h.u32()
    o.nlabels, o.nconstraints = h.u64(), h.u32()
    if h.i != len(h.b):
        raise Bad("header section has %d extra bytes" % (len(h.b) - h.i))
    c = Reader(secs[2], "constraints")
    o.cons = []
    for k in range(o.nconstraints):
        lcs = []
        for part in range(3):
            m = c.u32()
            d = {}
            last = -1
            for _ in range(m):
                w, v = c.u32(), c.big(o.n8)
                if w >= o.nwires:
                    raise Bad("constraint %d uses wire %d >= nWires %d" % (k, w, o.nwires))
                if w in d:
                    raise Bad("constraint %d repeats wire %d in one linear combination" % (k, w))
                if v >= o.p:
                    raise Bad("constraint %d: coefficient %d not reduced" % (k, v))
                d[w] = v
            lcs.append(d)
        o.cons.append(tuple(lcs))
    if c.i != len(c.b):
        raise Bad("constraints section has %d extra bytes for %d constraints" % (len(c.b) - c.i, o.nconstraints))
    w = Reader(secs[3], "wire2label")
    if len(w.b) != 8 * o.nwires:
        raise Bad("wire2label section has %d bytes for %d wires" % (len(w.b), o.nwires))
    o.labels = [w.u64() for _ in range(o.nwires)]
    o.gates_used, o.gates_applied = [], []
    if (4 in secs) != (5 in secs):
        raise Bad("custom gate sections must come together")
    for t in secs:
        if t not in (1, 2, 3, 4, 5):
            raise Bad("unknown section %d" % t)
    if 4 in secs:
        g = Reader(secs[4], "custom gates list")
        for _ in range(g.u32()):
            s = b""
            while True:
                ch = g.take(1)
                if ch == b"\0":
                    break
                s += ch
            ps = [g.big(o.n8) for _ in range(g.u32())]
            o.gates_used.append((s.decode(), ps))
        if g.i != len(g.b):
            raise Bad("custom gates list: trailing bytes")
        g = Reader(secs[5], "custom gates application")
        for _ in range(g.u32()):
            idx = g.u32()
            o.gates_applied.append((idx, [g.u64() for _ in range(g.u32())]))
        if g.i != len(g.b):
            raise Bad("custom gates application: trailing bytes")
    o.sections = order
    return o


def read_sym(path):
    """-> list of (label, wire, component, name)"""
    out = []
    for ln, line in enumerate(open(path).read().split("\n")):
        if line == "":
            continue
        f = line.split(",")
        if len(f) != 4:
            raise Bad("sym line %d: %r" % (ln + 1, line))
        try:
            out.append((int(f[0]), int(f[1]), int(f[2]), f[3]))
        except ValueError:
            raise Bad("sym line %d: %r" % (ln + 1, line))
    return out


def read_wtns(b, p=None):
    r = Reader(b, "wtns")
    if r.take(4) != b"wtns":
        raise Bad("wtns magic")
    if r.u32() != 2 or r.u32() != 2:
        raise Bad("wtns version/sections")
    if r.u32() != 1:
        raise Bad("wtns section 1 id")
    l1 = r.u64()
    n8 = r.u32()
    if l1 != 8 + n8:
        raise Bad("wtns section 1 length %d" % l1)
    q = r.big(n8)
    n = r.u32()
    if r.u32() != 2:
        raise Bad("wtns section 2 id")
    l2 = r.u64()
    if l2 != n8 * n:
        raise Bad("wtns section 2 length %d" % l2)
    w = [r.big(n8) for _ in range(n)]
    if r.i != len(r.b):
        raise Bad("wtns trailing bytes")
    if p is not None and q != p:
        raise Bad("wtns prime %d" % q)
    for x in w:
        if x >= q:
            raise Bad("wtns value not reduced")
    return w


def read_constraints_json(path):
    j = json.load(open(path))
    out = []
    for c in j["constraints"]:
        if len(c) != 3:
            raise Bad("json constraint with %d parts" % len(c))
        out.append(tuple({int(k): int(v) for k, v in d.items()} for d in c))
    return out


def lc_eval(d, w, p):
    return sum(v * w[k] for k, v in d.items()) % p


def unsatisfied(cons, w, p):
    return [i for i, (a, b, c) in enumerate(cons) if (lc_eval(a, w, p) * lc_eval(b, w, p) - lc_eval(c, w, p)) % p]


def poly(con, p, ren=lambda x: x):
    """A*B-C as a canonical polynomial {() | (s,) | (s,t): coeff}; wire 0 is the constant one."""
    A, B, C = con
    r = {}

    def add(k, v):
        v = (r.get(k, 0) + v) % p
        if v:
            r[k] = v
        else:
            r.pop(k, None)
    for k1, v1 in A.items():
        for k2, v2 in B.items():
            m = tuple(sorted(ren(x) for x in (k1, k2) if x != 0))
            add(m, v1 * v2)
    for k, v in C.items():
        add((ren(k),) if k != 0 else (), -v)
    return r


def normalise(pl, p):
    """scale a polynomial so that its leading coefficient is one -> hashable"""
    if not pl:
        return ()
    ks = sorted(pl, key=lambda k: (-len(k), k))
    inv = pow(pl[ks[0]], p - 2, p)
    return tuple((k, pl[k] * inv % p) for k in ks)
