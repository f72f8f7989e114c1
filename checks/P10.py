"""P10: witness programs accept exactly the declared inputs and read them in place."""
import copy, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap
from vlib.case import guarded
from vlib.drive import compiled, PS
from vlib.field import Field
from vlib.files import read_sym
from vlib.iface import IfaceGen
from vlib.both import wasm_outs, cpp_outs


class Maker:
    """input objects for the declared inputs"""
    def __init__(self, g, rng, F):
        self.g, self.r, self.F = g, rng, F
        self.ins = [(n, d, b) for k, n, d, b in g.sigs if k == "input"]

    def num(self, v):
        """one spelling of the field element v"""
        r = self.r
        k = r.random()
        if k < .15: return str(v + self.F.p * r.randrange(1, 4))
        if k < .2: return "0" * r.randrange(1, 4) + str(v)
        if k < .25: return hex(v)
        if k < .5 and v < (1 << 53): return v
        return str(v)

    def value(self, name, dims, bus, vals, serial):
        """structure of the values of name[dims]; vals: path -> element"""
        if dims:
            return [self.value("%s[%d]" % (name, i), dims[1:], bus, vals, serial) for i in range(dims[0])]
        if bus:
            if serial:
                return [self.value(x, [], None, vals, True) for x in self.g.flat(name, [], bus)]
            fs = list(dict(self.g.buses)[bus]); self.r.shuffle(fs)
            return {f: self.value(name + "." + f, d, b, vals, False) for f, d, b in fs}
        return self.uniform(name, vals[name])

    def uniform(self, name, v):
        # one spelling kind per input array: numbers and strings do not mix in one array
        base = name.split("[")[0].split(".")[0]
        kind = self.kinds.setdefault(base, self.r.random() < .25)
        if kind and self.small:
            return v
        x = self.num(v)
        return x if isinstance(x, str) else str(x)

    def make(self):
        r = self.r
        self.kinds, vals = {}, {}
        self.small = r.random() < .4
        order = list(self.ins)
        r.shuffle(order)
        o = {}
        for n, d, b in self.ins:
            for x in self.g.flat(n, d, b):
                v = r.randrange(1000) if self.small else self.F.rand(r)
                if self.small and r.random() < .1: v = ((1 << r.randrange(30, 53)) + r.randrange(5)) % self.F.p
                vals[x] = v
        for n, d, b in order:
            serial = b is not None and r.random() < .4
            x = self.value(n, d, b, vals, serial)
            if (d or serial) and isinstance(x, list) and not (b and not serial) and r.random() < .35:
                x = self.reshape(flat(x))
            o[n] = x
        return o, vals

    def reshape(self, l):
        """the same values, grouped differently"""
        k = self.r.random()
        if k < .5 or len(l) < 2: return l
        c = self.r.randrange(1, len(l))
        return [l[:c], l[c:]]

    def break_it(self, o):
        """-> (description, object that must be refused)"""
        r = self.r
        o = copy.deepcopy(o)
        names = list(o)
        n = r.choice(names)
        k = r.randrange(9)
        d = dict((x, (dd, b)) for x, dd, b in self.ins)
        if k == 0:
            del o[n]; return "input %s is missing" % n, o
        if k == 1:
            u = r.choice(["zzz", n + "x", n[:-1] + "_", "main." + n, n + "[0]" if not (d[n][1] and d[n][0]) else "zz9", "out99", "one", n.upper() + "Q"])
            o2 = {}
            pos = r.randrange(len(names) + 1)
            for i, x in enumerate(names + [None]):
                if i == pos: o2[u] = r.choice(["1", 1, ["1"]])
                if x is not None: o2[x] = o[x]
            return "unknown input %s" % u, o2
        if k in (2, 3):
            # more values
            x = o[n]
            if isinstance(x, list) and x and not any(isinstance(y, (dict)) for y in flat(x)):
                t = x
                while isinstance(t[-1], list) and r.random() < .5: t = t[-1]
                t.append(copy.deepcopy(t[-1]) if r.random() < .5 and not isinstance(t[-1], list) else ("5" if isinstance(flat(x)[0], str) else 5))
                return "too many values for %s" % n, o
            if not isinstance(x, (list, dict)):
                o[n] = [x, x]; return "two values for the single input %s" % n, o
            if isinstance(x, list):
                x.append(copy.deepcopy(x[-1])); return "too many buses for %s" % n, o
        if k in (4, 5):
            x = o[n]
            if isinstance(x, list):
                t = x
                while isinstance(t[-1], list) and r.random() < .7: t = t[-1]
                t.pop(r.randrange(len(t)))
                return "too few values for %s" % n, o
            if not isinstance(x, dict):
                o[n] = []; return "no value for %s" % n, o
        if k == 6:
            for n in r.sample(names, len(names)):
                x = o[n]
                if isinstance(x, list) and len(flat(x)) > 1 and not any(isinstance(y, dict) for y in flat(x)):
                    o[n] = flat(x)[0]; return "one value for the array %s" % n, o
        # buses
        for n in r.sample(names, len(names)):
            ds = dicts(o[n])
            if ds:
                t = r.choice(ds)
                f = r.choice(list(t))
                if r.random() < .5:
                    del t[f]; return "field %s of %s is missing" % (f, n), o
                t[f + "q"] = "3"; return "unknown field of %s" % n, o
        if r.random() < .5: return "empty object", {}
        del o[n]; return "input %s is missing" % n, o


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def dicts(x):
    if isinstance(x, list): return [z for y in x for z in dicts(y)]
    if isinstance(x, dict): return [x] + [z for y in x.values() for z in dicts(y)]
    return []


@guarded
def job(a, res):
    rng = random.Random(a["seed"])
    g = IfaceGen(rng, a["many"])
    if a["many"] and rng.random() < .6:
        # exactly as many entries as the table has room for
        g.sigs = [s for s in g.sigs if s[1][0] == "i" and s[1][1] != "n"][:rng.choice([255, 256, 257])] + [("output", "o", [], None)]
        g.public = [x for x in g.public if x in [s[1] for s in g.sigs]]
    if a["empty"]:
        g.sigs = [s for s in g.sigs if s[0] != "input"]; g.public = []
    F = Field(a["prime"])
    m = Maker(g, rng, F)
    text = g.text(rng)
    res.ctx["source"] = text
    key = "%s/%s" % (a["seed"], a["prime"])
    fl = ["--O0", "--sym", "--wasm"] + (["-c"] if a["cpp"] else []) + (["--no_asm"] if rng.random() < .3 else [])
    if not compiled(a, res, text, fl): return
    wire = {n: w for l, w, _, n in read_sym(a["dir"] + "/c.sym")}
    objs = []
    for _ in range(4 if a["cpp"] else 8):
        o, v = m.make()
        objs.append((json.dumps(o), v, "the declared inputs"))
        if m.ins:
            what, b = m.break_it(o)
            objs.append((json.dumps(b), None, what))
    texts = [x[0] for x in objs]
    outs = wasm_outs(a["dir"], texts)
    both = [outs]
    if a["cpp"]: both.append(cpp_outs(a["dir"], texts, a["cache"], res))
    for outs in both:
        for (t, vals, what), o in zip(objs, outs):
            if o is None: continue
            res.ev()
            if vals is None:
                res.cnt("to_refuse")
                if o.w is not None: res.viol(key + "/accepted", "%s although %s" % (o.brief(), what), input=t)
                elif o.wtns: res.viol(key + "/file", "%s but leaves a witness file (%s)" % (o.brief(), what), input=t)
            else:
                res.cnt("to_accept")
                if o.w is None:
                    res.viol(key + "/refused", "%s although exactly the declared inputs are given" % o.brief(), input=t); continue
                for n, v in vals.items():
                    w = wire.get("main." + n)
                    if w is None or w < 0: res.viol(key + "/wire", "input main.%s has no wire" % n); break
                    if o.w[w] != v:
                        res.viol(key + "/value", "%s: main.%s is %d in the witness, %d was given" % (o.tag, n, o.w[w], v), input=t); break
                res.cnt("values_compared", len(vals))
            res.seen("%s/%s/%s" % (key, hash(t) & 0xffffff, o.tag), {"seed": a["seed"], "back end": o.tag, "object": what, "values": vals and len(vals)})


def body(c):
    c.rule = "an (interface, input object, back end) whose outcome was compared with the interface; for accepted objects every value"
    cache = c.sub("cache")

    def items():
        for k in range(4000 if c.quick else 200000):
            yield dict(seed=c.rng.randrange(1 << 40), prime=PS[(k // 3) % 8] if k % 3 == 0 else "bn128", cpp=k % 6 == 1,
                       empty=k % 40 == 7, many=c.rng.choice([255, 256, 257, 300]) if k % 60 in (11, 13) else 0, cache=cache, dir=os.path.join(c.scratch, str(k)))
    c.absorb(pmap(job, items(), deadline=c.budget(50, 1200)))
    c.assumptions.append("values are written as non-negative integers below 2^53 or as decimal or hexadecimal strings of non-negative integers, one kind per input, as documented")


if __name__ == "__main__":
    main("P10", body)
