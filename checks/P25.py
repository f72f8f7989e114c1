"""P25: includes, libraries and pragmas are honoured."""
import os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap, run, CIRCOM
from vlib.case import guarded
from vlib.files import read_r1cs, poly
from vlib.layout import comment
from vlib.verdict import OK, BAD

VERSION = None
BASES = ["a", "b", "c", "d", "e", "u t", "é", "x.y", "LIB"]
DIRS = ["", "", "sub", "sub/deep", "lib1", "lib2", "lib1/sub", "other/lib3", "lib1/lib2"]


class World:
    """a tree of files and a model of what the compiler takes from it"""

    def __init__(self, r, d):
        self.r, self.d = r, d
        self.files = {}                 # path below d -> dict
        self.links = {}                 # path of a link -> path of a file or directory
        bases = r.sample(BASES, r.choice([2, 3, 4, 5]))
        dirs = r.sample(DIRS, r.choice([2, 3, 5]))
        for b in bases:
            for q in set(r.choice(dirs) for _ in range(r.choice([1, 1, 1, 2]))): self.files[os.path.join(q, b + ".circom")] = None
        self.dirs = sorted({os.path.dirname(f) for f in self.files} | {""})
        self.main = os.path.join(r.choice(["", "", "", "sub", "sub/deep"]), "main.circom")
        self.files[self.main] = None
        fs = sorted(self.files)
        self.libs = []
        pool = [x for x in DIRS if x] + ["nowhere"]
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])): self.libs.append(r.choice(pool))
        # links: other names of files and directories
        for i in range(r.choice([0, 0, 0, 1, 2])):
            t = r.choice(fs)
            if r.random() < .6: self.links[os.path.join(os.path.dirname(r.choice(fs)), "ln%d.circom" % i)] = t
            elif os.path.dirname(t): self.links["dl%d" % i] = os.path.dirname(t)
        dens = r.choice([.5, 1, 1, 2, 3])
        for n, f in enumerate(fs):
            k = 0
            incs = []
            m = len(fs)
            for _ in range(int(dens) + (r.random() < dens % 1)):
                if r.random() < .85 or f == self.main: incs.append(self.spelling(f, r.choice(fs + sorted(l for l in self.links if l.endswith(".circom")))))
            self.files[f] = dict(id=n + 100, inc=[i for i in incs if i], fn="f_" + re.sub(r"\W", "_", os.path.basename(f)[:-7]).replace("é", "e_"), version=None, main=f == self.main, custom=False, cpragma=False)
        # mistakes
        k = r.random()
        if k < .12: self.files[r.choice(fs)]["inc"].append(r.choice(["nope.circom", "sub", "", ".", "a", "main", "../nope.circom", "/nope/x.circom"]))
        elif k < .18: self.files[r.choice([f for f in fs if f != self.main] or fs)]["main"] = True
        elif k < .2: self.files[self.main]["main"] = False
        for f in fs: self.files[f]["version"] = r.choice([None] + [self.version(False)] * 4)
        if r.random() < .15: self.files[r.choice(fs)]["version"] = self.version(True)
        if r.random() < .25:
            for f in r.sample(fs, min(len(fs), r.choice([1, 1, 2]))): self.files[f]["custom"] = True
            for f in fs:
                self.files[f]["cpragma"] = r.random() < r.choice([.5, .9, 1, 1])
                v = self.files[f]["version"]
                if self.files[f]["cpragma"] and v and v < (2, 0, 6): self.files[f]["version"] = (2, 0, 6) if r.random() < .9 else v
        elif r.random() < .1:
            for f in fs:
                v = self.files[f]["version"]
                if r.random() < .5 and (v is None or v >= (2, 0, 6)): self.files[f]["cpragma"] = True

    def version(self, newer):
        a, b, c = VERSION
        r = self.r
        if newer: return r.choice([(a, b, c + 1), (a, b + 1, 0), (a + 1, 0, 0), (a, b, c + 10), (a, b + 10, 0), (a, 100, 0), (a, b, 10 ** 6)])
        return r.choice([(a, b, c), (a, b, 0), (a, 0, 0), (a, b - 1, c + 7), (a, 0, 99), (a, 1, 9), (a, b - 1, 10 ** 6), (a, 0, 6)])

    def spelling(self, f, t):
        """an include text in file f that leads to t, maybe through a library"""
        r = self.r
        here = os.path.dirname(f)
        k = r.random()
        rel = os.path.relpath(t, here or ".")
        if k < .5: s = rel
        elif k < .6: s = "./" + rel
        elif k < .65: s = os.path.join(self.d, t)
        elif k < .7 and os.path.dirname(t): s = os.path.relpath(os.path.dirname(t), here or ".") + "/../" + os.path.relpath(t, os.path.dirname(os.path.dirname(t)) or ".")
        elif k < .95:
            # by its name below a directory: found through a library or next to the file, or not
            s = os.path.basename(t) if r.random() < .7 else os.path.join(os.path.basename(os.path.dirname(t)), os.path.basename(t))
        else: s = rel.replace("/", "//")
        for l, q in self.links.items():
            if not l.endswith(".circom") and t.startswith(q + "/") and r.random() < .5: s = os.path.relpath(l + t[len(q):], here or ".")
        # (an include that nothing answers makes the program an error; most are kept meaningful)
        if self.resolve(f, s) is None and r.random() < .93: s = rel
        return s

    def real(self, p):
        """the file of the tree a path leads to, through links; None when there is none"""
        p = os.path.join(self.d, p)
        parts = p.split("/")
        cur = "/"
        for i, x in enumerate(parts):
            if x in ("", "."):
                continue
            if x == "..": cur = os.path.dirname(cur); continue
            cur = os.path.join(cur, x)
            rel = os.path.relpath(cur, self.d)
            if rel in self.links: cur = os.path.join(self.d, self.links[rel])
            elif i < len(parts) - 1 and not self.isdir(cur): return None
        rel = os.path.relpath(cur, self.d)
        if parts[-1] in ("", ".", ".."): return None
        return rel if rel in self.files else None

    def isdir(self, p):
        rel = os.path.relpath(p, self.d)
        if rel.startswith("..") or rel == ".": return os.path.isdir(p) or self.d.startswith(p + "/") or rel == "."
        return any(f.startswith(rel + "/") for f in list(self.files) + list(self.links))

    def resolve(self, f, s):
        for q in [os.path.dirname(f)] + self.libs:
            x = self.real(os.path.join(q, s))
            if x is not None: return x
        return None

    def model(self):
        """(None, why) or (set of files taken, edges)"""
        taken, todo, edges = set(), [self.main], []
        missing = False
        while todo:
            f = todo.pop()
            if f in taken: continue
            taken.add(f)
            for s in self.files[f]["inc"]:
                t = self.resolve(f, s)
                if t is None: missing = True; continue
                edges.append((f, t)); todo.append(t)
        why = []
        if missing: why.append("missing file")
        if any(v and (v[0] != VERSION[0] or v > VERSION) for v in (self.files[f]["version"] for f in taken)): why.append("version")
        mains = sum(self.files[f]["main"] for f in taken)
        if mains != 1: why.append("%d mains" % mains)
        fns = [self.files[f]["fn"] for f in taken]
        if len(set(fns)) != len(fns): why.append("function defined twice")
        cu = [f for f in taken if self.files[f]["custom"]]
        if any(self.files[f]["cpragma"] and self.files[f]["version"] and self.files[f]["version"] < (2, 0, 6) for f in taken): why.append("old version with custom templates")
        reach = set(cu)
        while True:
            more = {a for a, b in edges if b in reach} - reach
            if not more: break
            reach |= more
        if any(not self.files[f]["cpragma"] for f in reach): why.append("custom templates pragma")
        return taken, edges, why

    def write(self, taken):
        r = self.r
        r.random()
        fns = sorted(taken)
        for f, x in self.files.items():
            t = []
            if x["version"]: t.append("pragma circom %d.%d.%d;" % x["version"])
            if x["cpragma"]: t.append("pragma custom_templates;")
            r.shuffle(t)
            t += ['include "%s";' % s for s in x["inc"]]
            t.append("function %s() { return %d; }" % (x["fn"], x["id"]))
            if x["custom"]: t.append("template custom C%d() { signal input x; signal output y; y <-- x; }" % x["id"])
            if x["main"]:
                # (the functions of all files, and a template of this one)
                t.append("template M%d() { signal input q; signal output o[%d]; %s }" % (x["id"], len(fns), " ".join("o[%d] <== %s();" % (i, self.files[g]["fn"]) for i, g in enumerate(fns))))
                t.append("component main = M%d();" % x["id"])
            p = os.path.join(self.d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as h: h.write("\n".join(y + (" " + comment(r, ("block",)) if r.random() < .1 else "") for y in t) + "\n")
        for l, t in self.links.items():
            p = os.path.join(self.d, l)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.lexists(p): os.symlink(os.path.join(self.d, t), p)


@guarded
def job(a, res):
    r = random.Random(a["seed"])
    root = os.path.realpath(os.path.dirname(a["dir"])) + "/" + os.path.basename(a["dir"]) + "/w"
    os.makedirs(root)
    w = World(r, root)
    taken, edges, why = w.model()
    w.write(taken)
    os.makedirs(root + "/cwd/in", exist_ok=True)
    cwd = root
    k = r.random()
    src = w.main
    if k < .2: src = "./" + src
    elif k < .4: src = os.path.join(root, src)
    elif k < .6: cwd = root + "/cwd/in"; src = os.path.relpath(os.path.join(root, src), cwd)
    elif k < .7 and os.path.dirname(src): cwd = os.path.join(root, os.path.dirname(src)); src = os.path.basename(src)
    L = []
    for l in w.libs:
        q = os.path.join(root, l)
        q = r.choice([q, q, q + "/", os.path.relpath(q, cwd)])
        L += r.choice([["-l", q], ["-l", q], ["-l" + q]])
    cmd = [src] + L + ["--O0", "--r1cs", "-o", root + "/cwd"]
    if r.random() < .3: cmd = L + ["--O0", "--r1cs", "-o", root + "/cwd", src]
    x = run([CIRCOM] + cmd, cwd=cwd, timeout=60)
    if x.timeout: res.inc("timeout"); return
    rep = dict(command=cmd, cwd=cwd, files={f: open(os.path.join(root, f)).read() for f in w.files}, links=w.links, libraries=w.libs, model=dict(taken=sorted(taken), why=why))
    res.ev()
    key = "%d" % a["seed"]
    if x.panicked or x.rc not in (0, 1): res.viol(key + "/crash", "the compiler crashes: %s" % x.err[-300:], **rep); return
    if why:
        if x.rc == 0: res.viol(key + "/accepted", "accepted although: %s" % ", ".join(why), **rep); return
        if not x.text.count("error") or BAD not in x.text: res.viol(key + "/silent", "rejected without an error message", **rep); return
        for y in why: res.cnt("rejected_" + y.replace(" ", "_"))
    else:
        if x.rc: res.viol(key + "/rejected", "rejected although every include is found (%s): %s" % (sorted(taken), x.text.strip()[-500:]), **rep); return
        R = read_r1cs(root + "/cwd/main.r1cs")
        got = {}
        for c in R.cons:
            pl = poly(c, R.p)
            ws = [q for q in pl if q]
            if len(ws) != 1: continue
            q = ws[0]
            got[q[0]] = -pl.get((), 0) * pow(pl[q], R.p - 2, R.p) % R.p
        fns = sorted(taken)
        for i, f in enumerate(fns):
            if got.get(i + 1) != w.files[f]["id"]:
                o = [g for g in w.files if w.files[g]["id"] == got.get(i + 1)]
                res.viol(key + "/file", "the definition of %s is taken from %s" % (f, o), **rep); return
        nw = len(re.findall(r"^warning\[P1004\]", x.text, re.M))
        want = sum(w.files[f]["version"] is None for f in taken)
        if nw != want: res.viol(key + "/warnings", "%d files without version, %d warnings: %s" % (want, nw, x.text[-600:]), **rep); return
        res.cnt("accepted"); res.cnt("files_taken", len(taken)); res.cnt("includes_followed", len(edges)); res.cnt("versionless_files_warned", want)
        if any((b, c) in edges for c, b in edges): res.cnt("with_cycle")
    res.seen((a["seed"],), {"files": len(taken), "includes": len(edges), "libraries": w.libs, "verdict": why or "accepted"})


def body(c):
    global VERSION
    c.rule = "a tree of files whose verdict and definitions were compared with the model of include resolution"
    v = run([CIRCOM, "--version"]).out
    VERSION = tuple(int(x) for x in re.search(r"(\d+)\.(\d+)\.(\d+)", v).groups())

    def items():
        for k in range(400000): yield dict(seed=c.rng.randrange(1 << 40), dir=c.scratch + "/%d" % k, k=k)
    c.absorb(pmap(job, items(), deadline=c.budget(40, 1000)))


if __name__ == "__main__":
    main("P25", body)
