"""Random main components: signals of every shape (arrays, buses, buses in buses), kinds in
any order, declared in any documented way, with a random public list."""


class IfaceGen:
    def __init__(self, rng, many=0):
        self.r = r = rng
        self.buses = []            # (name, nparams, [(field, dims, busname or None)])
        for k in range(r.randrange(0, 4)):
            fs = []
            for j in range(r.randrange(1, 4)):
                b = r.choice(self.buses)[0] if self.buses and r.random() < .4 else None
                fs.append(("%s%d" % (r.choice("fzqa"), j), self.dims(), b))
            r.shuffle(fs)
            self.buses.append(("Bus%d" % k, fs))
        self.sigs = []
        for k in range(r.randrange(2, 9)):
            kind = r.choice(["input", "input", "output", ""])
            b = r.choice(self.buses)[0] if self.buses and r.random() < .35 else None
            self.sigs.append((kind, "%s%d" % (r.choice(["a", "in", "zz", "out", "m_", "B"]), k), self.dims(), b))
        for k in range(many): self.sigs.append(("input", "i%d_%s" % (k, r.choice("abc")), [], None))
        if not any(s[0] == "input" for s in self.sigs): self.sigs.append(("input", "lastin", [], None))
        if not any(s[0] == "output" for s in self.sigs): self.sigs.insert(0, ("output", "firstout", [], None))
        ins = [s[1] for s in self.sigs if s[0] == "input"]
        self.public = [x for x in ins if r.random() < r.choice([0, .5, .8, 1])]

    def dims(self):
        r = self.r
        return [r.choice([1, 2, 3]) for _ in range(r.choice([0, 0, 1, 1, 2, 3] if r.random() < .5 else [0, 1]))]

    def flat(self, name, dims, bus):
        if dims:
            return [x for i in range(dims[0]) for x in self.flat("%s[%d]" % (name, i), dims[1:], bus)]
        if bus:
            fs = dict(self.buses)[bus]
            return [x for f, d, b in fs for x in self.flat(name + "." + f, d, b)]
        return [name]

    def of(self, f):
        return [x for k, n, d, b in self.sigs if f(k, n) for x in self.flat("main." + n, d, b)]

    def outs(self): return self.of(lambda k, n: k == "output")
    def pub(self): return self.of(lambda k, n: k == "input" and n in self.public)
    def prv(self): return self.of(lambda k, n: k == "input" and n not in self.public)

    def text(self, rng):
        r = rng
        s = "pragma circom 2.1.6;\n"
        for n, fs in self.buses:
            s += "bus %s() {\n" % n
            for f, d, b in fs:
                ds = "".join("[%d]" % x for x in d)
                s += "  signal %s%s;\n" % (f, ds) if not b else "  %s() %s%s;\n" % (b, f, ds)
            s += "}\n"
        s += "template Sub() { signal input x; signal output y; signal k; k <== x * x; y <== k + 1; }\n"
        s += "template Main() {\n"
        for k, n, d, b in self.sigs:
            ds = "".join("[%d]" % x for x in d)
            s += "  %s %s%s;\n" % (("signal " + k).strip() if not b else ("%s() %s" % (b, k)).strip(), n, ds)
        ins = [x[5:] for x in self.of(lambda k, n: k == "input")]
        done = list(ins) or ["1"]
        subs = r.randrange(0, 3)
        for k in range(subs):
            s += "  component c%d = Sub(); c%d.x <== %s;\n" % (k, k, r.choice(done))
            done.append("c%d.y" % k)
        for k, n, d, b in self.sigs:
            if k == "input": continue
            for x in self.flat(n, d, b):
                how = r.random()
                if how < .3: s += "  %s <== %s;\n" % (x, r.choice(done))
                elif how < .45: s += "  %s <== %d;\n" % (x, r.randrange(4))
                elif how < .75: s += "  %s <== %s * %s + %d;\n" % (x, r.choice(done), r.choice(done), r.randrange(3))
                elif how < .85: s += "  %s <== %s + 3 * %s;\n" % (x, r.choice(done), r.choice(done))
                else: s += "  %s <-- %s;\n" % (x, r.choice(done))
                done.append(x)
        s += "}\n"
        pub = list(self.public); r.shuffle(pub)
        s += "component main%s = Main();\n" % (" {public [%s]}" % ", ".join(pub) if pub else "")
        return s
