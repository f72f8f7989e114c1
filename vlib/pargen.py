"""Random programs with many parallel components: nested, in arrays (also mixed with plain
ones in one array), with different parameters in one array, without inputs, with outputs
read early, late, in part or not at all.  text() has the marks; plain() has none."""


class ParGen:
    def __init__(self, rng, many=8, depth=3):
        self.r, self.many, self.depth = rng, many, depth

    def text(self):
        r = self.r
        out = ["pragma circom 2.1.6;\nbus P() { signal a; signal b[2]; }\nfunction burn(x, n) { var s = x; for (var i = 0; i < n; i++) { s = (s * s + i) % 1000003; } return s; }\n"]
        tmpl = []
        for l in range(r.randrange(1, self.depth + 1)):
            for k in range(r.randrange(1, 3)):
                tmpl.append(self.template("T%d_%d" % (l, k), tmpl, l, out))
        ni = r.randrange(1, 4)
        self.template("Main", tmpl, 9, out, main=True, ni=ni)
        out.append("component main = Main(%d);\n" % r.randrange(1, 4))
        self.ni = None
        return "".join(out)

    def template(self, name, tmpl, level, out, main=False, ni=None):
        """t = (name, ninputs or 'bus' shape, noutputs as an expression of n, busout)"""
        r = self.r
        ni = ni or r.choice([0, 1, 1, 2, 3]) if not main else ni
        varout = r.random() < .4
        busin = not main and ni > 0 and r.random() < .25
        busout = r.random() < .3
        s = "template %s%s(n) {\n" % ("parallel " if not main and r.random() < .35 else "", name)
        if ni: s += " signal input in[%d];\n" % ni
        if busin: s += " P() input pin;\n"
        s += " signal output out[%s];\n" % ("n" if varout else "2")
        if busout: s += " P() output pout;\n"
        have = ["in[%d]" % i for i in range(ni)] + (["pin.a", "pin.b[0]", "pin.b[1]"] if busin else [])
        val = lambda: r.choice(have + (["n"] if r.random() < .1 or not have else []))

        def expr():
            k = r.random()
            if k < .35: return val()
            if k < .6: return "%s * %s" % (val(), val())
            if k < .8: return "%s + %d * %s" % (val(), r.randrange(1, 9), val())
            return "%s * %s + %s" % (val(), val(), val())
        if have and r.random() < .5:
            s += " signal w; w <-- burn(%s, %d);\n" % (val(), r.choice([3, 50, 2000]))
            have.append("w")
        nc = (r.randrange(1, 4) if main else r.randrange(0, 3)) if tmpl else 0
        pend = []
        for c in range(nc):
            t = r.choice(tmpl)
            size = r.choice([1, 2, 3]) if not main else r.choice([1, 2, 3, self.many])
            two = size > 1 and r.random() < .25
            dims = "[%d]%s" % (size, "[2]" if two else "")
            s += " component c%d%s;\n" % (c, dims)
            how = r.choice(["all", "all", "none", "mixed", "mixed"])
            ix = "[i]" + ("[j]" if two else "")
            inner = "%sc%d%s = " % ("for (var j = 0; j < 2; j++) { " if two else "", c, ix)
            arg = r.choice(["1", "2", "i + 1", "(i % 2) + 1", "i % 3 + 1"])
            if how == "mixed":
                s += " for (var i = 0; i < %d; i++) { %sif (i %% 2 == %d) { c%d%s = parallel %s(%s); } else { c%d%s = %s(%s); } %s}\n" % (
                    size, "for (var j = 0; j < 2; j++) { " if two else "", r.randrange(2), c, ix, t[0], arg, c, ix, t[0], arg, "} " if two else "")
            else:
                s += " for (var i = 0; i < %d; i++) { %s%s%s(%s); %s}\n" % (size, inner, "parallel " if how == "all" else "", t[0], arg, "} " if two else "")
            cells = [("c%d[%d]%s" % (c, i, "[%d]" % j if two else ""), i) for i in range(size) for j in range(2 if two else 1)]
            inputs = ["in[%d]" % i for i in range(t[1])] + (["pin.a", "pin.b[0]", "pin.b[1]"] if t[3] else [])
            todo = [(x, y) for x, i in cells for y in inputs]
            order = r.random()
            if order < .3: r.shuffle(todo)
            elif order < .5: todo.sort(key=lambda q: q[1])
            if r.random() < .3 and len(cells) > 3 and have and not two:
                # in a loop, all cells alike
                v = [expr() for _ in inputs]
                if inputs: s += " for (var i = 0; i < %d; i++) { %s }\n" % (size, " ".join("c%d[i].%s <== %s;" % (c, y, e) for y, e in zip(inputs, v)))
            else:
                for x, y in todo: s += " %s.%s <== %s;\n" % (x, y, expr())
            outs = []
            for x, i in cells:
                n = {"1": 1, "2": 2, "i + 1": i + 1, "(i % 2) + 1": i % 2 + 1, "i % 3 + 1": i % 3 + 1}[arg] if t[2] else 2
                outs += ["%s.out[%d]" % (x, k) for k in range(n)]
                if t[4]: outs += [x + ".pout.a", x + ".pout.b[1]"]
            take = r.sample(outs, min(len(outs), r.choice([0, 1, 2, 5, len(outs)])))
            if r.random() < .6: have += take
            else: pend += take
            if r.random() < .15 and take: s += ' log("%s", %s);\n' % (name, r.choice(take))
        have += pend
        if varout: s += " for (var i = 0; i < n; i++) { out[i] <== %s; }\n" % expr()
        else: s += " out[0] <== %s; out[1] <== %s;\n" % (expr(), expr())
        if busout: s += " pout.a <== %s; pout.b[0] <== %s; pout.b[1] <== %s;\n" % (expr(), expr(), expr())
        if main and r.random() < .15: s += " assert(%s != %d);\n" % (val(), r.randrange(3))
        out.append(s + "}\n")
        t = (name, ni, varout, busin, busout)
        if main: self.main_ni = ni
        return t

    def inputs(self, rng):
        return {"in": [str(rng.choice([0, 1, 2, 7, 10 ** 12, rng.getrandbits(60)])) for _ in range(self.main_ni)]}


def plain(text): return text.replace("parallel ", "")
