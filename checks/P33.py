#!/usr/bin/env python3
"""P33: the algebra library computes with exact quadratic forms.  A driver linked with the real
crate (debug assertions and overflow checks on) runs random histories of its public operations;
after each one the monitor compares the polynomial of what came out with the operation applied to
the polynomials of the operands, exactly."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import random
from vlib.core import main, pmap
from vlib.case import guarded
from vlib.algsem import *
from vlib.algsem import Bad as Wrong
from vlib.field import PRIMES
from vlib import harness

SMALL = [3, 5, 7, 11, 257, 65537]
DRV = None


def drv():
    global DRV
    if DRV is None: DRV = harness.Driver(PATH)
    return DRV


class Hist:
    def __init__(self, r, p, res, key):
        self.r, self.p, self.f, self.res, self.key = r, p, F(p), res, key
        self.e, self.c, self.s, self.log, self.n, self.sigs = {}, {}, {}, [], 0, r.choice([2, 3, 4, 8])
        self.ask("field %d" % p); self.ask("reset")

    def ask(self, line):
        a = drv().ask(line); self.log.append((line, a))
        if a.startswith(("PANIC", "DIED")): raise Wrong("`%s` failed: %s" % (line[:120], a[:160]))
        if a.startswith("K!"): raise Wrong("the three ways of taking signals disagree: " + a[:200])
        return a

    def req(self, cond, msg, *a):
        if not cond: raise Wrong(msg % a if a else msg)

    def name(self, k):
        self.n += 1; return "%s%d" % (k, self.n)

    def sig(self): return self.r.randrange(1, self.sigs + 1)

    def coef(self):
        x = self.r.random()
        return self.r.choice([1, self.p - 1, 1, 2, 0]) % self.p if x < .5 else self.f.rand(self.r)

    def map(self, const=None):
        r = self.r; m = {self.sig(): self.coef() for _ in range(r.choice([0, 1, 1, 2, 3, 5]))}
        if r.random() < .5 if const is None else const: m[0] = self.coef()
        return m

    def leaf(self):
        r = self.r; k = r.random()
        if k < .35:
            n = self.name("e"); v = r.choice([0, 1, 2, self.p - 1, self.coef(), self.coef()]) % self.p; x = Expr(self.ask("num %s %d" % (n, v)), self.p); want = {(): v} if v else {}
        elif k < .6:
            n = self.name("e"); s = self.sig(); x = Expr(self.ask("sig %s %d" % (n, s)), self.p); want = {(s,): 1}
        else:
            n = self.name("e"); m = self.map(); x = Expr(self.ask("lin %s %s" % (n, smap(m))), self.p); want = plin(m, self.p)
        self.req(x.poly == want, "a leaf became %s", x.text)
        self.e[n] = x; return n

    def pick(self, d, kinds=None):
        l = [k for k, x in d.items() if kinds is None or x.kind in kinds]
        return self.r.choice(l[-12:]) if l else None

    def op(self):
        r = self.r
        name = r.choice(["add", "sub", "mul"] * 6 + ["div", "pow", "neg"] * 3 + sorted(OPS) + sorted(UN))
        num = name not in ("add", "sub", "mul", "div", "pow", "neg") or r.random() < .1
        l = self.pick(self.e, "N" if num and r.random() < .9 else "NSLQ" if r.random() < .97 else None) or self.leaf()
        q = self.pick(self.e, "N" if (num or name in ("div", "pow")) and r.random() < .9 else "NSLQ" if r.random() < .97 else None) or self.leaf()
        if name == "pow" and r.random() < .6:
            q = self.name("e"); self.e[q] = Expr(self.ask("num %s %d" % (q, 2 % self.p)), self.p)
        L, R = self.e[l], self.e[q]; n = self.name("e")
        if num and name in OPS and L.kind == R.kind == "N" and r.random() < .6:
            va, vb = self.f.near(r, OPS[name]) if r.random() < .5 else (self.f.rand(r), self.f.rand(r))
            l, q = self.name("e"), self.name("e")
            for k, v in ((l, va), (q, vb)): self.e[k] = Expr(self.ask("num %s %d" % (k, v)), self.p)
            L, R = self.e[l], self.e[q]
        a = self.ask("op %s %s %s %s" % ((name, n, l, q) if name not in UN else (name, n, l, "")))
        want, err, mayx = expected(name, L, R, self.f)
        desc = "%s of %s and %s" % (name, L.text[:300], R.text[:300]) if name not in UN else "%s of %s" % (name, L.text[:300])
        if a.startswith("E "):
            self.req(err == a, "%s reported %s, expected %s", desc, a, err or want); self.e[n] = Expr("X", self.p); self.res.cnt("errors_reported"); return
        self.req(err is None, "%s gave %s, expected %s", desc, a[:200], err)
        x = Expr(a, self.p); self.e[n] = x
        if x.kind == "X": self.req(mayx, "%s was reported as not quadratic", desc); self.res.cnt("not_quadratic"); return
        self.req(want is not None, "%s gave %s from a non-quadratic operand", desc, a[:200])
        self.req(x.poly == want, "%s gave %s", desc, a[:400])
        self.res.cnt("op_" + name); self.res.seen((name, L.kind, R.kind if name not in UN else "", x.kind))

    def cons(self):
        r = self.r
        if r.random() < .5 and self.e:
            e = self.pick(self.e, "NSLQ" if r.random() < .95 else None) or self.leaf(); n = self.name("c"); a = self.ask("tocons %s %s" % (n, e)); x = self.e[e]
            if x.kind == "X": self.req(a == "none", "a non-quadratic expression became %s", a); return None
            c = Cons(a, self.p); self.req(c.poly == x.poly, "the constraint of %s is %s", x.text[:300], a[:300])
        else:
            n = self.name("c"); a, b, d = [self.map() if r.random() < .75 else {} for _ in range(3)]
            if r.random() < .3: a = {0: self.coef()} if r.random() < .6 else a
            elif r.random() < .3: b = {0: self.coef()}
            if r.random() < .2: a, b = {}, {}
            for m in (a, b, d): m.setdefault(0, 0)
            c = Cons(self.ask("mkcons %s %s %s %s" % (n, smap(a), smap(b), smap(d))), self.p)
            self.req(c.poly == padd(pmul(plin(a, self.p), plin(b, self.p), self.p), plin(d, self.p), self.p), "a quadratic form became %s", c.text[:300])
        self.c[n] = c; return n

    def sub(self):
        e = self.pick(self.e, "NSL") or self.leaf(); x = self.sig(); n = self.name("s"); E = self.e[e]
        a = self.ask("subnew %s %d %s" % (n, x, e))
        if a == "none": self.req(E.kind == "L" and x in E.m, "no substitution of %d by %s", x, E.text[:200]); return None
        s = Sub(a, self.p); self.req(s.x == x and s.poly == E.poly, "the substitution of %d by %s is %s", x, E.text[:200], a[:200])
        self.s[n] = s; return n

    def cstep(self):
        r, p = self.r, self.p
        k = r.choice(["appcons", "appcons", "fix", "fix", "rmzc", "clear", "clearnn", "offc", "wit", "corc", "preds", "fastc", "c2e", "csig"])
        n = self.pick(self.c) or self.cons()
        if n is None: return
        c = self.c[n]
        if k in ("appcons", "fastc"):
            if k == "fastc":
                # substitutions which do not mention each other's signals, as the simplifier makes them
                names, froms, tos = [], set(), set()
                for _ in range(r.choice([1, 2, 4])):
                    s = self.pick(self.s) if r.random() < .5 else self.sub()
                    if not s: continue
                    S = self.s[s]; ks = set(S.to) - {0}
                    if S.x in froms or S.x in tos or ks & froms or S.x in ks: continue
                    names.append(s); froms.add(S.x); tos |= ks
                if not names: return
                want = c.poly
                for s in names: want = psubst(want, self.s[s].x, self.s[s].poly, p)
                a = self.ask("fastc %s %s" % (n, " ".join(names))); t, b = a.rsplit(" ", 1)
                self.req(b == str(int(bool(froms & c.keys()))), "%s reports %s on whether a substitution applied", c.text[:200], b); what = "the substitutions %s" % " and ".join(self.s[s].text[:100] for s in names)
            else:
                s = self.pick(self.s) if r.random() < .7 else self.sub()
                if not s: return
                want = psubst(c.poly, self.s[s].x, self.s[s].poly, p); t = self.ask("appcons %s %s" % (n, s)); what = "the substitution " + self.s[s].text[:200]
            d = Cons(t, p); self.c[n] = d
            self.req(d.poly == want, "%s applied to %s gave %s", what, c.text[:300], t[:300])
        elif k in ("fix", "rmzc"):
            d = Cons(self.ask("%s %s" % (k, n)), p); self.c[n] = d
            self.req(d.poly == c.poly, "%s turned %s into %s", k, c.text[:300], d.text[:300])
            self.req(all(v for m in (d.a, d.b, d.c) for v in m.values()), "%s left a zero coefficient in %s", k, d.text[:300])
            if k == "fix": self.req(not (set(d.a) == {0} or set(d.b) == {0}) and bool(d.a) == bool(d.b), "fix left %s", d.text[:300])
        elif k in ("clear", "clearnn"):
            d = Cons(self.ask("fix " + n), p); self.req(d.poly == c.poly, "fix turned %s into %s", c.text[:300], d.text[:300]); self.c[n] = d
            self.req(self.ask("islin " + n) == "B %d" % (not d.a and not d.b), "is_linear is wrong on %s", d.text[:300])
            ks = [x for x in d.c if x]
            if d.a or not ks: return
            x = r.choice(ks); self.res.cnt("cleared")
            if k == "clear":
                m = self.name("s"); s = Sub(self.ask("clear %s %s %d" % (m, n, x)), p); self.s[m] = s
                self.req(s.x == x and x not in s.to and psubst(d.poly, x, s.poly, p) == {}, "clearing %d from %s gave %s", x, d.text[:300], s.text[:300])
                self.req(padd({(x,): 1}, s.poly, p, -1) == padd({}, d.poly, p, self.f.inv(d.poly[(x,)])), "clearing %d from %s gave %s", x, d.text[:300], s.text[:300])
            else:
                t = self.ask("clearnn %s %d" % (n, x)).split(); kf, to = int(t[1]), plin(lin(t[3]), p)
                self.req(int(t[2]) == x and kf % p and (x,) not in to and padd({(x,): kf % p}, to, p, -1) in (d.poly, padd({}, d.poly, p, -1)), "clearing %d from %s gave %s", x, d.text[:300], " ".join(t)[:300])
        elif k in ("offc", "wit", "corc"):
            m = self.name("c")
            if k == "offc": o = r.randrange(0, 50); ren = {x: x + o for x in range(1, 60)}; a = self.ask("offc %s %s %d" % (m, n, o))
            else:
                hi = max([self.sigs] + list(c.keys())); ids = list(range(1, hi + 8)); r.shuffle(ids); ren = dict(zip(range(1, hi + 1), ids))
                full = {0: 0} | ren
                a = self.ask("%s %s %s %s" % (k, m, n, smap(full)))
            d = Cons(a, p)
            for u, v in ((c.a, d.a), (c.b, d.b), (c.c, d.c)):
                self.req({(ren[x] if x else 0): w for x, w in u.items()} == v, "%s of %s gave %s", k, c.text[:300], a[:300])
        elif k == "preds":
            d = Cons(self.ask("fix " + n), p); self.req(d.poly == c.poly, "fix turned %s into %s", c.text[:300], d.text[:300]); self.c[n] = d
            li = not d.a and not d.b; vals = list(d.c.items())
            want = dict(islin=li, isempty=li and not d.c, iseq=li and len(vals) == 2 and all(x for x, _ in vals) and (vals[0][1] + vals[1][1]) % p == 0,
                        isconst=li and len([x for x, _ in vals if x]) == 1)
            for q, w in want.items(): self.req(self.ask("%s %s" % (q, n)) == "B %d" % w, "%s is wrong on %s", q, d.text[:300])
            self.res.cnt("predicates")
        elif k == "c2e":
            ns = [self.name("e") for _ in range(3)]; t = self.ask("c2e %s %s" % (" ".join(ns), n)).split(" | ")
            for q, s, m in zip(ns, t, (c.a, c.b, c.c)):
                x = Expr(s, p); self.req(x.poly == plin(m, p), "a side of %s became %s", c.text[:300], s[:300]); self.e[q] = x
        elif k == "csig":
            a = self.ask("csig " + n); self.req(a == "K " + ",".join(map(str, sorted(c.keys()))), "the signals of %s are %s", c.text[:300], a)
        self.res.seen((k, bool(c.a), bool(c.b), bool(c.c)))

    def sstep(self):
        r, p = self.r, self.p
        k = r.choice(["appsub", "appexpr", "appexpr", "rmzs", "offs", "cors", "s2c", "s2e", "decomp", "ssig", "fasts"])
        n = self.pick(self.s) if r.random() < .7 else self.sub()
        if not n: return
        s = self.s[n]
        if k in ("appsub", "fasts"):
            m = self.pick(self.s)
            if k == "fasts" and self.s[m].x in self.s[m].to: return
            t = self.s[m]; d = Sub(self.ask("%s %s %s" % (k, n, m)), p); self.s[n] = d
            self.req(d.x == s.x and d.poly == psubst(s.poly, t.x, t.poly, p), "%s applied to %s gave %s", t.text[:200], s.text[:200], d.text[:200])
            if k == "fasts": self.req(all(d.to.values()), "zero coefficients remain in %s", d.text[:200])
        elif k == "appexpr":
            e = self.pick(self.e) or self.leaf(); E = self.e[e]; d = Expr(self.ask("appexpr %s %s" % (e, n)), p); self.e[e] = d
            if E.kind == "X": self.req(d.kind == "X", "a substitution turned a non-quadratic expression into %s", d.text[:200])
            else: self.req(d.poly == psubst(E.poly, s.x, s.poly, p), "%s applied to %s gave %s", s.text[:200], E.text[:300], d.text[:300])
        elif k == "rmzs":
            d = Sub(self.ask("rmzs " + n), p); self.s[n] = d
            self.req(d.x == s.x and d.poly == s.poly and all(d.to.values()), "removing zeros from %s gave %s", s.text[:200], d.text[:200])
        elif k in ("offs", "cors"):
            m = self.name("s")
            if k == "offs": o = r.randrange(0, 50); ren = {x: x + o for x in range(1, 60)}; a = self.ask("offs %s %s %d" % (m, n, o))
            else:
                hi = max([self.sigs, s.x] + list(s.to)); ids = list(range(1, hi + 8)); r.shuffle(ids); ren = dict(zip(range(1, hi + 1), ids)); a = self.ask("cors %s %s %s" % (m, n, smap(ren)))
            d = Sub(a, p); self.req(d.x == ren[s.x] and d.to == {(ren[x] if x else 0): v for x, v in s.to.items()}, "%s of %s gave %s", k, s.text[:200], a[:200])
        elif k == "s2c":
            if s.x in s.to: return
            m = self.name("c"); d = Cons(self.ask("s2c %s %s" % (m, n)), p); self.c[m] = d; want = padd(s.poly, {(s.x,): 1}, p, -1)
            self.req(d.poly in (want, padd({}, want, p, -1)), "the constraint of %s is %s", s.text[:200], d.text[:200])
        elif k == "s2e":
            m = self.name("e"); d = Expr(self.ask("s2e %s %s" % (m, n)), p); self.e[m] = d
            self.req(d.poly == padd(s.poly, {(s.x,): 1}, p, -1), "the expression of %s is %s", s.text[:200], d.text[:200])
        elif k == "decomp":
            m = self.name("e"); t = self.ask("decomp %s %s" % (m, n)).split(" ", 2); d = Expr(t[2], p); self.e[m] = d
            self.req(int(t[1]) == s.x and d.poly == s.poly, "%s decomposes into %s", s.text[:200], t[2][:200])
        elif k == "ssig":
            a = self.ask("ssig " + n); self.req(a == "K " + ",".join(map(str, sorted(set(s.to) - {0}))), "the signals of %s are %s", s.text[:200], a)
        self.res.seen((k, len(s.to) > 1, 0 in s.to))

    def store(self):
        """a history of the constraint store against a list"""
        r, p = self.r, self.p
        self.ask("snew"); model = []
        nz = lambda c: tuple(tuple(sorted((k, v) for k, v in m.items())) for m in (c.a, c.b, c.c))
        for _ in range(r.choice([5, 20, 60])):
            k = r.choice(["add"] * 4 + ["read"] * 3 + ["rep", "ext", "ids"])
            if k in ("add", "rep"):
                n = self.pick(self.c) if r.random() < .4 else self.cons()
                if n is None: continue
                c = nz(self.c[n])
                if k == "add": a = self.ask("sadd " + n); self.req(a == "I %d" % len(model), "constraint %d of the store got %s", len(model), a); model.append(c)
                else:
                    i = r.randrange(0, len(model) + 2); self.ask("srep %d %s" % (i, n))
                    if i < len(model): model[i] = c
            elif k == "read":
                i = r.randrange(0, len(model) + 2); a = self.ask("sread %d" % i)
                if i >= len(model): self.req(a == "none", "constraint %d of %d reads as %s", i, len(model), a[:200])
                else: self.req(a != "none" and nz(Cons(a, p)) == model[i], "constraint %d reads back as %s instead of %s", i, a[:300], str(model[i])[:300]); self.res.cnt("stored_read")
            elif k == "ext":
                x = self.sig(); a = self.ask("sext %d" % x)[2:]; got = [nz(Cons(t, p)) for t in a.split(" | ")] if a.strip() else []
                want = [c for c in model if any(kk == x for m in c for kk, _ in m)]; model = [c for c in model if c not in want]
                self.req(got == want, "extracting from the store gave %s instead of %s", str(got)[:300], str(want)[:300])
            else:
                a = self.ask("sids"); self.req(a == "K " + ",".join(map(str, range(len(model)))), "the store of %d lists %s", len(model), a[:200])
        for i, c in enumerate(model):
            a = self.ask("sread %d" % i); self.req(a != "none" and nz(Cons(a, p)) == c, "constraint %d reads back as %s instead of %s", i, a[:300], str(c)[:300])

    def multiinv(self):
        v = [self.f.rand(self.r) or 1 for _ in range(self.r.choice([0, 1, 2, 5, 30]))]
        if not v: return
        a = [int(x) for x in self.ask("multiinv " + ",".join(map(str, v)))[2:].split(",")]
        self.req(a == [self.f.inv(x) for x in v], "the inverses of %s are %s", v, a); self.res.cnt("inverses", len(v))

    def simp(self, big):
        """eliminating signals from a set of linear constraints"""
        r, p = self.r, self.p
        n = r.choice([360, 420, 700]) if big else r.choice([1, 2, 5, 12, 40])
        ns = r.choice([n // 2 + 1, n, n + 5, 2 * n]) + 1; rows = []
        sol = [0] + [self.coef() for _ in range(ns)]; consistent = r.random() < .7; local = big or r.random() < .7
        for i in range(n):
            w = r.choice([1, 2, 2, 2, 3, 3, 4, 6]); m = {}
            for _ in range(w):
                x = min(ns, max(1, int(i * ns / n) + r.randrange(-6, 7))) if local else r.randrange(1, ns + 1)
                m[x] = self.coef() or 1
            if rows and r.random() < .15:
                # a combination of earlier ones
                for q in (rows[-2:] if local else r.sample(rows, min(len(rows), 2))):
                    k = self.coef() or 1
                    for x, v in q.items(): m[x] = (m.get(x, 0) + k * v) % p
                m = {x: v for x, v in m.items() if v and x}
            s = sum(v * sol[x] for x, v in m.items())
            c = -s % p if consistent else self.coef()
            if c and r.random() < .999: m[0] = c
            if m: rows.append(m)
        if not rows: return
        forb = {0} | set(r.sample(range(1, ns + 1), r.choice([0, 1, min(ns, 3), ns // 4])))
        a = self.ask("simp %d %d %s %s" % (r.random() < .5, ns, ",".join(map(str, forb)), " ".join(smap(m) for m in rows)))
        cs, ss, rm = [x.strip() for x in a[2:].split("#")]
        cons = [Cons(t, p) for t in cs.split(" | ")] if cs else []; subs = [Sub(t, p) for t in ss.split(" | ")] if ss else []
        removed = [int(x) for x in rm.split(",")] if rm else []
        self.req([s.x for s in subs] == removed and len(set(removed)) == len(removed), "the removed signals %s are not those substituted", removed[:20])
        self.req(not set(removed) & forb, "signals %s must be kept and were eliminated", sorted(set(removed) & forb)[:10])
        rs = set(removed)
        for s in subs: self.req(not any(x in rs and v for x, v in s.to.items()), "%s mentions eliminated signals", s.text[:200])
        out = []
        for c in cons:
            self.req(not c.a and not c.b, "a linear constraint became %s", c.text[:200]); self.req(not any(x in rs for x in c.keys()), "%s mentions eliminated signals", c.text[:200])
            out.append(c.c)
        if n <= 420 and ns <= 500 or r.random() < .3:
            lhs = rref(rows, p); rhs = rref(out + [s.to | {s.x: (s.to.get(s.x, 0) - 1) % p} for s in subs], p)
            self.req(lhs == rhs, "the solutions changed: %d constraints in %d signals became %d constraints and %d substitutions", len(rows), ns, len(out), len(subs))
            self.res.cnt("systems_compared")
        self.res.cnt("eliminated", len(subs)); self.res.seen(("simp", big, len(subs) > 3, len(out) > 0, p < 300), {"constraints": len(rows), "signals": ns, "eliminated": len(subs), "left": len(out), "prime": p})


@guarded
def job(a, res):
    r = random.Random(a["seed"])
    p = r.choice(SMALL) if r.random() < .5 else PRIMES[r.choice(sorted(PRIMES))]
    h = Hist(r, p, res, a["mode"])
    try:
        if a["mode"] == "simp": h.simp(a["big"])
        else:
            for _ in range(4): h.leaf()
            for _ in range(r.choice([40, 80, 160])):
                k = r.random()
                if k < .45: h.op()
                elif k < .55: h.leaf()
                elif k < .6: h.cons()
                elif k < .65: h.sub()
                elif k < .84: h.cstep()
                elif k < .97: h.sstep()
                else: h.multiinv()
            if r.random() < .3: h.store()
        res.cnt("histories")
    except Wrong as e:
        res.viol("%s/%d" % (a["mode"], a["seed"]), "over F_%d: %s" % (p, e), prime=p, history=["%s  ->  %s" % (x[:2000], y[:2000]) for x, y in h.log[-400:]])
    res.cnt("calls", len(h.log)); res.cnt("evaluations")


def body(c):
    global PATH
    PATH = os.environ.get('HX') or harness.build("algebra")
    c.rule = "an operation on operands of given shapes, or an elimination of given size, whose result was compared exactly"

    def items():
        for k in range(100000 if c.quick else 2000000):
            yield dict(seed=c.rng.randrange(1 << 40), dir=c.scratch + "/%d" % k, mode="simp" if k % 6 == 5 else "hist", big=k % 30 == 29)
    c.absorb(pmap(job, items(), deadline=c.budget(float(os.environ.get("B", "35")), 1200)))
    c.assumptions.append("operands are reduced residues and renumberings are injective, as the compiler uses them")


if __name__ == "__main__":
    main("P33", body)
