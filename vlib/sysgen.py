"""Random constraint systems written as circom programs.  The values are `<-- 0`: only
the emitted constraints matter.  Most systems are satisfiable by construction (a hidden
assignment balances every constant), some are contradictory on purpose."""


class SysGen:
    MODES = ["mixed", "chains", "rounds", "contra", "dups", "linear", "consts", "big", "bigchain", "subs", "stages", "stages"]

    def __init__(self, rng, F, mode):
        self.r, self.F, self.mode = rng, F, mode
        self.h = {}
        self.pool = [0, 1, self.coef(), F.rand(rng), F.rand(rng)]

    def hide(self, sigs):
        for s in sigs: self.h[s] = self.r.choice(self.pool)
        return sigs

    def coef(self):
        r = self.r
        k = r.random()
        if k < .45: return r.choice([1, 1, 1, 2, 3, self.F.p - 1, self.F.p - 1])
        if k < .7: return r.randrange(1, 20)
        if k < .8: return pow(2, r.randrange(1, 200), self.F.p)
        return self.F.rand(r) or 1

    def lin(self, sigs, n, const=.4):
        """(text, hidden value)"""
        r, p = self.r, self.F.p
        ts, v = [], 0
        for s in r.sample(sigs, min(n, len(sigs))):
            if r.random() < .75:
                c = self.coef(); ts.append("%d*%s" % (c, s)); v += c * self.h[s]
            else:
                ts.append(s); v += self.h[s]
        if r.random() < const or not ts:
            c = self.coef(); ts.append(str(c)); v += c
        r.shuffle(ts)
        return " + ".join(ts), v % p

    def bal(self, l, lv, t, tv):
        """l === t, made true of the hidden assignment"""
        k = (lv - tv) % self.F.p
        return "%s === %s;" % (l, t if k == 0 else "%s + %d" % (t, k))

    def same(self, sigs):
        a = self.r.choice(sigs)
        c = [x for x in sigs if self.h[x] == self.h[a] and x != a]
        return a, self.r.choice(c or [a])

    def one(self, sigs, kinds):
        r, p, h = self.r, self.F.p, self.h
        k = r.choice(kinds)
        if k == "eq":
            return "%s === %s;" % self.same(sigs)
        if k == "keq":
            a, b = self.same(sigs)
            c = self.coef()
            if r.random() < .6: return "%d*%s === %d*%s;" % (c, a, c, b)
            d = self.coef()
            return self.bal("%d*%s" % (c, a), c * h[a], "%d*%s" % (d, b), d * h[b])
        if k == "const":
            a = r.choice(sigs)
            return "%s === %d;" % (a, h[a])
        if k == "kconst":
            a = r.choice(sigs); c = self.coef()
            return "%d*%s === %d;" % (c, a, c * h[a] % p)
        if k == "lin":
            l, lv = self.lin(sigs, r.randrange(1, 5)); t, tv = self.lin(sigs, r.randrange(0, 3))
            return self.bal(l, lv, t, tv)
        if k == "quad":
            a, av = self.lin(sigs, r.randrange(1, 3)); b, bv = self.lin(sigs, r.randrange(1, 3)); t, tv = self.lin(sigs, r.randrange(0, 3))
            return self.bal("(%s) * (%s)" % (a, b), av * bv, t, tv)
        if k == "prod":
            a, b, t = (r.choice(sigs) for _ in range(3))
            return self.bal("%s * %s" % (a, b), h[a] * h[b], t, h[t])
        raise KeyError(k)

    def body(self, sigs, n, mode):
        r, p, h = self.r, self.F.p, self.h
        out = []
        if mode == "mixed":
            out = [self.one(sigs, ["eq", "eq", "keq", "const", "lin", "lin", "quad", "quad", "prod"]) for _ in range(n)]
        elif mode == "chains":
            s = list(sigs); r.shuffle(s); s.sort(key=lambda x: h[x])
            k = 0
            while k + 1 < len(s):
                m = r.randrange(2, 9)
                ch = s[k:k + m]; k += m
                ch = [x for x in ch if h[x] == h[ch[0]]]
                if len(ch) < 2: continue
                es = [(ch[i], ch[i + 1]) for i in range(len(ch) - 1)] if r.random() < .5 else [(ch[0], x) for x in ch[1:]]
                if r.random() < .3 and len(ch) > 2: es.append((ch[0], ch[-1]))
                r.shuffle(es)
                out += ["%s === %s;" % (e if r.random() < .5 else e[::-1]) for e in es]
            out += [self.one(sigs, ["const", "prod", "quad", "lin"]) for _ in range(n // 4)]
        elif mode == "rounds":
            # constants and linear relations turn products into linear relations, and so on
            s = list(sigs); r.shuffle(s)
            out.append("%s === %d;" % (s[0], h[s[0]]))
            for i in range(1, len(s) - 1):
                k = r.random()
                if k < .5:
                    a, b, x, y = r.randrange(3), r.randrange(1, 4), r.choice(s), r.choice(s)
                    out.append(self.bal("(%s + %d) * (%s + %d*%s)" % (s[i - 1], a, s[i], b, x), (h[s[i - 1]] + a) * (h[s[i]] + b * h[x]), y, h[y]))
                elif k < .7: out.append(self.bal("%s * %s" % (s[i - 1], s[i]), h[s[i - 1]] * h[s[i]], "0", 0))
                elif k < .85: out.append(self.bal(s[i], h[s[i]], s[i - 1], h[s[i - 1]]))
                else:
                    m = r.randrange(1, 4)
                    out.append(self.bal("%s * %s" % (s[i], s[i]), h[s[i]] ** 2, "%s * %d" % (s[i + 1], m), h[s[i + 1]] * m))
        elif mode == "stages":
            # a relation appears as linear only after `d` rounds; it brings in signals that occur
            # nowhere else but in relations of other stages
            s = list(sigs); r.shuffle(s)
            depth = min(r.randrange(1, 6), len(s) - 3)
            unit, s = s[:depth], s[depth:]
            for u in unit: h[u] = h[u] or 1
            for d, u in enumerate(unit):
                out.append("%s === %d;" % (u, h[u]) if d == 0 else self.bal("%s * %s" % (unit[d - 1], u), h[unit[d - 1]] * h[u], "0", 0))
            fresh, used = s[: len(s) // 2], s[len(s) // 2:]
            for _ in range(n):
                u, k = r.choice(unit), r.random()
                a, b, t = r.choice(used), r.choice(used), r.choice(fresh)
                c = self.coef()
                if k < .4: out.append(self.bal("%s * (%s - %d*%s)" % (u, a, c, t), h[u] * (h[a] - c * h[t]), "0", 0))
                elif k < .6: out.append(self.bal("%s * (%s + %s)" % (u, a, b), h[u] * (h[a] + h[b]), "%d*%s" % (c, t), c * h[t]))
                elif k < .75: out.append(self.bal("%s * %s" % (a, u), h[a] * h[u], b, h[b]))
                else: out.append(self.bal("%s * %s" % (a, b), h[a] * h[b], t if k > .9 else r.choice(used), h[t] if k > .9 else 0) if k > .9 else self.bal("%s * %s" % (a, b), h[a] * h[b], a, h[a]))
        elif mode == "contra":
            out = [self.one(sigs, ["eq", "const", "lin", "quad", "kconst"]) for _ in range(n)]
            a, b, c = (r.choice(sigs) for _ in range(3))
            k = self.coef()
            out += r.choice([
                ["%s === %d;" % (a, k), "%s === %s;" % (a, b), "%s === %d;" % (b, k + 1)],
                ["%s + %s === %d;" % (a, b, k), "%s + %s === %d;" % (b, a, k + 1)],
                ["%s === %s + 1;" % (a, b), "%s === %s;" % (a, b)],
                ["%s === 1;" % a, "%s === 2;" % b, "%s * %s === %d;" % (a, b, r.choice([2, 3]))],
                ["%s === 0;" % a, "%s * %s === %d;" % (a, b, r.choice([0, 1]))],
                ["%s - %s === %s - %s + 1;" % (a, b, a, c), "%s === %s;" % (b, c)]])
        elif mode == "dups":
            base = [self.one(sigs, ["eq", "const", "lin", "quad", "prod"]) for _ in range(max(2, n // 3))]
            out = base + [r.choice(base) for _ in range(n)]
            for _ in range(3):
                a, v = self.lin(sigs, 3)
                k = self.coef()
                out += ["%s === %d;" % (a, v), "%d * (%s) === %d;" % (k, a, k * v % p)]
        elif mode == "linear":
            out = [self.one(sigs, ["lin", "lin", "lin", "keq", "kconst"]) for _ in range(n)]
        elif mode == "consts":
            out = [self.one(sigs, ["const", "kconst", "eq", "keq", "lin", "prod"]) for _ in range(n)]
        return out

    def text(self):
        r, mode = self.r, self.mode
        if mode in ("big", "bigchain"):
            return self.big(mode)
        if mode == "subs":
            return self.subs()
        ni, no, ns = r.randrange(1, 5), r.randrange(1, 4), r.randrange(3, 14)
        sigs = self.hide(["in[%d]" % i for i in range(ni)] + ["out[%d]" % i for i in range(no)] + ["s[%d]" % i for i in range(ns)])
        cons = self.body(sigs, r.randrange(3, 16), mode)
        r.shuffle(cons)
        s = "pragma circom 2.1.6;\ntemplate T() {\n signal input in[%d]; signal input p; signal output out[%d]; signal s[%d];\n" % (ni, no, ns)
        s += " for (var i = 0; i < %d; i++) { out[i] <-- 0; }\n for (var i = 0; i < %d; i++) { s[i] <-- 0; }\n" % (no, ns)
        s += "".join(" %s\n" % c for c in cons) + "}\ncomponent main%s = T();\n" % r.choice(["", " {public [in]}", " {public [p]}", " {public [p, in]}"])
        return s

    def big(self, mode):
        """one connected cluster of several hundred linear constraints"""
        r, h, p = self.r, self.h, self.F.p
        n = r.randrange(372, 400)
        S = self.hide(["s[%d]" % i for i in range(n)]); IN = self.hide(["in[%d]" % i for i in range(4)]); OUT = self.hide(["out[%d]" % i for i in range(3)])
        s = "pragma circom 2.1.6;\ntemplate T() {\n signal input in[4]; signal output out[3]; signal s[%d];\n" % n
        s += " for (var i = 0; i < 3; i++) { out[i] <-- 0; }\n for (var i = 0; i < %d; i++) { s[i] <-- 0; }\n" % n
        cons = []

        def rel(l, rs):
            v = sum(c * h[x] for c, x in rs)
            cons.append(self.bal(l, h[l], " + ".join("%d*%s" % (c, x) for c, x in rs), v))
        for i in range(n - (1 if mode == "bigchain" else 20)):
            if mode == "bigchain":
                rs = [(r.randrange(2, 9), S[i])] + ([(r.randrange(1, 5), r.choice(IN))] if r.random() < .3 else [])
                rel(S[i + 1], rs)
            else:
                near = {min(n - 1, max(0, i + r.choice([-7, -3, -2, -1, 1, 2, 5, 11]))) for _ in range(r.randrange(1, 3))} - {i} or {(i + 1) % n}
                if r.random() < .02: near.add(r.randrange(n))
                rs = [(self.coef() if r.random() < .3 else r.randrange(1, 9), S[x]) for x in sorted(near)] + [(1, r.choice(IN))]
                rel(S[i], rs)
        for _ in range(r.randrange(2, 12)):
            rel(r.choice(OUT), [(1, r.choice(S)), (r.randrange(1, 7), r.choice(S))])
        for _ in range(r.randrange(2, 12)):
            a, b, c = (r.choice(S) for _ in range(3))
            cons.append(self.bal("%s * %s" % (a, b), h[a] * h[b], c, h[c]))
        if r.random() < .15:
            cons.append("s[3] + s[4] === s[3] + s[4] + in[0] - in[1] + 1;")
        r.shuffle(cons)
        return s + "".join(" %s\n" % c for c in cons) + "}\ncomponent main = T();\n"

    def subs(self):
        """the same kinds of constraints spread over a tree of components"""
        r = self.r
        ts, out = [], "pragma circom 2.1.6;\n"
        for t in range(r.randrange(1, 4)):
            ni, no, ns = r.randrange(1, 4), r.randrange(1, 3), r.randrange(1, 6)
            self.h = {}
            sigs = self.hide(["in[%d]" % i for i in range(ni)] + ["out[%d]" % i for i in range(no)] + ["s[%d]" % i for i in range(ns)])
            decl = " signal input in[%d]; signal output out[%d]; signal s[%d];\n" % (ni, no, ns)
            decl += " for (var i = 0; i < %d; i++) { out[i] <-- 0; }\n for (var i = 0; i < %d; i++) { s[i] <-- 0; }\n" % (no, ns)
            wires = ""
            for k in range(r.randrange(0, 3) if ts else 0):
                c, cni, cno, ch = r.choice(ts)
                n = r.randrange(1, 4)
                wires += " component c%d[%d];\n for (var i = 0; i < %d; i++) { c%d[i] = %s(%d); }\n" % (k, n, n, k, c, r.randrange(3))
                for i in range(n):
                    for j in range(cni):
                        x = r.choice(sigs)
                        e, v = r.choice([(x, self.h[x]), self.lin(sigs, 2), ("0", 0)])
                        kk = (ch["in[%d]" % j] - v) % self.F.p
                        wires += " c%d[%d].in[%d] <== %s;\n" % (k, i, j, e if kk == 0 else "%s + %d" % (e, kk))
                    for j in range(cno):
                        sigs.append("c%d[%d].out[%d]" % (k, i, j)); self.h[sigs[-1]] = ch["out[%d]" % j]
            cons = self.body(sigs, r.randrange(2, 8), r.choice(["mixed", "consts", "linear", "dups", "chains", "rounds"]))
            r.shuffle(cons)
            out += "template T%d(k) {\n%s%s%s}\n" % (t, decl, wires, "".join(" %s\n" % c for c in cons))
            ts.append(("T%d" % t, ni, no, self.h))
        return out + "component main%s = %s(%d);\n" % (r.choice(["", " {public [in]}"]), ts[-1][0], r.randrange(3))
