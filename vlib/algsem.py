"""Reference semantics of circom_algebra: exact polynomials over a prime field.
A polynomial is a dict from a sorted tuple of signal numbers to a nonzero residue."""
from .field import Field, DivZero


class F(Field):
    def __init__(self, p):
        self.name = str(p); self.p = p; self.bits = p.bit_length()
        self.mask = (1 << self.bits) - 1; self.half = p // 2; self.bytes = 8


    def rand(self, rng): return Field.rand(self, rng) % self.p if self.p > 1 << 40 or rng.random() < .5 else rng.randrange(self.p)

    def near(self, rng, op):
        a, b = Field.near(self, rng, op); return a % self.p, b % self.p


class Bad(Exception):
    pass


def canon(v, p, what=""):
    if not 0 <= v < p: raise Bad("coefficient %d is not in [0, p)" % v)
    return v


def lin(t):
    return {} if t == "-" else {int(k): int(v) for k, v in (x.split(":") for x in t.split(","))}


def smap(m):
    return ",".join("%d:%d" % kv for kv in m.items()) if m else "-"


def padd(a, b, p, k=1):
    r = dict(a)
    for m, v in b.items():
        w = (r.get(m, 0) + k * v) % p
        if w: r[m] = w
        else: r.pop(m, None)
    return r


def pmul(a, b, p):
    r = {}
    for m, v in a.items():
        for n, w in b.items():
            k = tuple(sorted(m + n)); r[k] = (r.get(k, 0) + v * w) % p
    return {k: v for k, v in r.items() if v}


def plin(m, p):
    """polynomial of a linear map, whose key 0 is the constant"""
    r = {}
    for k, v in m.items():
        canon(v, p)
        if v % p: r[() if k == 0 else (k,)] = v % p
    return r


def psubst(a, x, to, p):
    r = {}
    for m, v in a.items():
        t = {tuple(k for k in m if k != x): v}
        for _ in range(m.count(x)): t = pmul(t, to, p)
        r = padd(r, t, p)
    return r


class Expr:
    """kind N S L Q X with its maps, as printed by the driver"""
    def __init__(self, s, p):
        t = s.split(); self.kind = t[0]; self.text = s; self.p = p
        if t[0] == "N": self.v = canon(int(t[1]), p); self.poly = {(): self.v} if self.v else {}
        elif t[0] == "S": self.s = int(t[1]); self.poly = {(self.s,): 1}
        elif t[0] == "L": self.m = lin(t[1]); self.poly = plin(self.m, p)
        elif t[0] == "Q":
            self.a, self.b, self.c = map(lin, t[1:4]); self.poly = padd(pmul(plin(self.a, p), plin(self.b, p), p), plin(self.c, p), p)
        elif t[0] == "X": self.poly = None
        else: raise Bad("unexpected answer " + s[:200])


class Cons:
    def __init__(self, s, p):
        t = s.split()
        if t[0] != "C": raise Bad("unexpected answer " + s[:200])
        self.text = s; self.p = p; self.a, self.b, self.c = map(lin, t[1:4])
        self.poly = padd(pmul(plin(self.a, p), plin(self.b, p), p), plin(self.c, p), p, -1)

    def keys(self): return (set(self.a) | set(self.b) | set(self.c)) - {0}


class Sub:
    def __init__(self, s, p):
        t = s.split()
        if t[0] != "T": raise Bad("unexpected answer " + s[:200])
        self.text = s; self.p = p; self.x = int(t[1]); self.to = lin(t[2]); self.poly = plin(self.to, p)


OPS = dict(add="+", sub="-", mul="*", div="/", idiv="\\", mod="%", pow="**", shl="<<", shr=">>", bor="|", band="&", bxor="^", eq="==", neq="!=", lt="<", le="<=", gt=">", ge=">=", **{"or": "||", "and": "&&"})
UN = {"neg": "-", "not": "!", "compl": "~"}


def expected(name, l, r, f):
    """(polynomial, error, may be non-quadratic) of an operation on two Exprs"""
    p = f.p
    deg = {"N": 0, "S": 1, "L": 1, "Q": 2}
    if l.kind == "X" or (name not in UN and r.kind == "X"): return None, None, True
    if name in UN:
        if l.kind == "N": v = f.un(UN[name], l.v); return ({(): v} if v else {}), None, False
        if name == "neg": return padd({}, l.poly, p, -1), None, False
        return None, None, True
    if l.kind == r.kind == "N":
        try: v = f.bin(OPS[name], l.v, r.v)
        except DivZero: return None, "E div", False
        return ({(): v} if v else {}), None, False
    if name in ("add", "sub"): return padd(l.poly, r.poly, p, 1 if name == "add" else -1), None, l.kind == r.kind == "Q"
    if name == "mul": return pmul(l.poly, r.poly, p), None, deg[l.kind] + deg[r.kind] > 2
    if name == "div" and r.kind == "N":
        if not r.v: return None, "E div", False
        return padd({}, l.poly, p, f.inv(r.v)), None, False
    if name == "pow" and r.kind == "N" and r.v == 2 % p and p > 2: return pmul(l.poly, l.poly, p), None, deg[l.kind] > 1
    if name == "pow" and r.kind == "N":
        q = {(): 1}
        if r.v < 4:
            for _ in range(r.v): q = pmul(q, l.poly, p)
            return q, None, True
    return None, None, True


# ------------------------------------------------------------- linear systems
def rref(rows, p):
    """reduced row echelon form of linear polynomials, as a set of frozen rows; signals are
    ordered by number and the constant comes last"""
    piv = {}
    def red(r):
        for k in sorted(r):
            if k in piv and k in r: r = padd_row(r, piv[k], p, -r[k])
        return r
    for r in rows:
        r = {(k if k else 1 << 60): v % p for k, v in r.items() if v % p}
        while True:
            ks = [k for k in r if k in piv]
            if not ks: break
            k = min(ks); r = padd_row(r, piv[k], p, -r[k])
        if not r: continue
        k = min(r); inv = pow(r[k], p - 2, p); r = {a: v * inv % p for a, v in r.items()}
        for q in list(piv):
            if k in piv[q]: piv[q] = padd_row(piv[q], r, p, -piv[q][k])
        piv[k] = r
    return {k: tuple(sorted(v.items())) for k, v in piv.items()}


def padd_row(a, b, p, k):
    r = dict(a)
    for m, v in b.items():
        w = (r.get(m, 0) + k * v) % p
        if w: r[m] = w
        else: r.pop(m, None)
    return r
