"""Exact comparison of two rank-one constraint systems (one obtained from the other by
eliminating signals).  Polynomials are dicts {(): c, (x,): c, (x, y): c}, x <= y."""


class Lin:
    """canonical reduced row echelon form for a fixed order of the variables"""

    def __init__(self, p, order):
        self.p, self.order = p, order       # order: var -> sort key; the largest is the pivot
        self.rows = {}                      # pivot -> {var or None: coeff} with pivot coeff 1 left out:  pivot = -row
        self.occ = {}                       # var -> set of pivots whose row contains var
        self.contradiction = False

    def reduce(self, lin):
        p, out = self.p, {}
        for x, v in lin.items():
            r = self.rows.get(x)
            if r is None:
                w = (out.get(x, 0) + v) % p
                if w: out[x] = w
                else: out.pop(x, None)
            else:
                for y, u in r.items():
                    w = (out.get(y, 0) - v * u) % p
                    if w: out[y] = w
                    else: out.pop(y, None)
        return out

    def add(self, lin):
        """-> pivot of the new row, or None"""
        p = self.p
        r = self.reduce(lin)
        if not r: return None
        vs = [x for x in r if x is not None]
        if not vs:
            self.contradiction = True
            return None
        piv = max(vs, key=self.order)
        inv = pow(r.pop(piv), p - 2, p)
        r = {x: v * inv % p for x, v in r.items()}
        for q in self.occ.pop(piv, set()):
            row = self.rows[q]
            c = row.pop(piv)
            for y, u in r.items():
                w = (row.get(y, 0) - c * u) % p
                if w:
                    row[y] = w
                    if y is not None: self.occ.setdefault(y, set()).add(q)
                elif y in row:
                    del row[y]
                    if y is not None: self.occ[y].discard(q)
        self.rows[piv] = r
        for y in r:
            if y is not None: self.occ.setdefault(y, set()).add(piv)
        return piv

    def form(self, x):
        """x as a reduced linear form {var|None: c}"""
        r = self.rows.get(x)
        if r is None: return {x: 1}
        return {y: self.p - u for y, u in r.items()}


def psub(pl, lin, p):
    """substitute pivots of `lin` in a polynomial"""
    out = {}

    def add(k, v):
        w = (out.get(k, 0) + v) % p
        if w: out[k] = w
        else: out.pop(k, None)
    for k, v in pl.items():
        if len(k) < 2:
            if not k: add((), v)
            else:
                for y, u in lin.form(k[0]).items(): add(() if y is None else (y,), v * u)
        else:
            f, g = lin.form(k[0]), lin.form(k[1])
            for y, u in f.items():
                for z, t in g.items():
                    m = tuple(sorted(x for x in (y, z) if x is not None))
                    add(m, v * u * t)
    return out


def degree(pl): return max((len(k) for k in pl), default=-1)


class System:
    """linear closure of a list of polynomials: everything linear is solved, what
    becomes linear by substitution is solved as well, until nothing changes"""

    def __init__(self, polys, p, order):
        self.p = p
        self.lin = Lin(p, order)
        todo = [q for q in polys if q]
        self.rounds = 0
        self.nonlinear = []
        while True:
            lins = [q for q in todo if degree(q) <= 1]
            rest = [q for q in todo if degree(q) > 1]
            new = set()
            for q in lins:
                piv = self.lin.add({(k[0] if k else None): v for k, v in q.items()})
                if piv is not None: new.add(piv)
            if not new:
                self.nonlinear = rest
                break
            self.rounds += 1
            todo = []
            for q in rest:
                if any(x in self.lin.rows for k in q for x in k):
                    q = psub(q, self.lin, p)
                if q: todo.append(q)
        self.contradiction = self.lin.contradiction

    def basis(self):
        """canonical basis of the span of the nonlinear polynomials over monomials"""
        b = Lin(self.p, lambda m: (len(m), m))
        for q in self.nonlinear:
            b.add({(m if m else None): v for m, v in q.items()})
        return b.rows


def compare(polys0, polys1, kept, p):
    """None when the second system is exactly the projection of the first on `kept`;
    otherwise a description.  Returns (text|None, info)"""
    order = lambda x: (x not in kept, x)
    a, b = System(polys0, p, order), System(polys1, p, order)
    info = dict(linear=len(a.lin.rows), nonlinear=len(a.nonlinear), rounds=a.rounds, contradiction=a.contradiction)
    for q in polys1:
        for k in q:
            for x in k:
                if x not in kept: return "simplified constraint mentions eliminated signal %s" % x, info
    if a.contradiction or b.contradiction:
        if a.contradiction != b.contradiction:
            return "the %s system is contradictory, the other is not" % ("original" if a.contradiction else "simplified"), info
        return None, info
    for q in a.nonlinear:
        for k in q:
            for x in k:
                if x not in kept:
                    return "signal %s was eliminated but is not a linear combination of kept signals" % x, info
    ka = {x: r for x, r in a.lin.rows.items() if x in kept}
    kb = b.lin.rows
    if ka != kb:
        for x in set(ka) | set(kb):
            if ka.get(x) != kb.get(x):
                if x not in kb: return "linear relation lost: fixes %s = %s" % (x, neg(ka[x], p)), info
                if x not in ka: return "linear relation invented: fixes %s = %s" % (x, neg(kb[x], p)), info
                return "linear relation changed for %s: %s instead of %s" % (x, neg(kb[x], p), neg(ka[x], p)), info
    na, nb = a.basis(), b.basis()
    if na != nb:
        for m in set(na) | set(nb):
            if na.get(m) != nb.get(m):
                return "quadratic constraints differ: leading monomial %s is %s, was %s" % (m, nb.get(m), na.get(m)), info
    return None, info


def neg(r, p):
    return " + ".join("%d*%s" % ((p - v) if v else 0, x) for x, v in list(r.items())[:6]) or "0"
