"""What a coherent verdict of the compiler looks like."""
import os, re

OK, BAD = "Everything went okay", "previous errors were found"
LOC = re.compile(r'┌─ "?(.*?)"?:(\d+):(\d+)\s*$', re.M)


def stem(inp): return os.path.splitext(os.path.basename(inp or "./circuit.circom"))[0]


def flag_value(fl, *names):
    v = None
    for i, f in enumerate(fl):
        if f in names and i + 1 < len(fl): v = fl[i + 1]
    return v


def artefacts(inp, fl):
    """files (relative to the working directory) that a successful run with these flags leaves"""
    n = stem(inp)
    o = flag_value(fl, "-o", "--output") or "."
    cpp = "-c" in fl or "--c" in fl
    if cpp and n in ("main", "fr", "calcwit"): n += "_c"
    out = []
    if "--r1cs" in fl: out.append(n + ".r1cs")
    if "--sym" in fl: out.append(n + ".sym")
    if "--json" in fl: out.append(n + "_constraints.json")
    if "--simplification_substitution" in fl: out.append(n + "_substitutions.json")
    if "--wasm" in fl: out += [n + "_js/" + n + ".wasm"]
    if "--wat" in fl: out += [n + "_js/" + n + ".wat"]
    if "--wasm" in fl or "--wat" in fl: out += [n + "_js/generate_witness.js", n + "_js/witness_calculator.js"]
    if cpp: out += [n + "_cpp/" + f for f in (n + ".cpp", n + ".dat", "main.cpp", "circom.hpp", "calcwit.hpp", "calcwit.cpp", "fr.hpp", "Makefile")]
    return [os.path.join(o, f) for f in out]


def judge(x, d, inp, fl, res=None):
    """list of incoherences of a finished run, or "resources" """
    t = x.text
    m = re.search(r"panicked at ([^\n]*):\n([^\n]*)", x.err)
    if re.search(r"memory allocation of \d+ bytes failed|capacity overflow", x.err): return "resources"
    if x.rc == -9 and not m: return "resources"
    bad = []
    if m or x.panicked or x.rc not in (0, 1):
        # the location of the panic is the class of the failure
        return ["the compiler crashed: %s" % ("%s %s" % (m.group(1), m.group(2)[:100]) if m else "exit status %s %s" % (x.rc, x.err[-120:]))]
    ok, bd = t.count(OK), t.count(BAD)
    usage = "USAGE" in t or "--help" in t
    errs = len(re.findall(r"^error(\[\w+\])?:", t, re.M))
    if x.rc == 0:
        if "-h" in fl or "-V" in fl: return bad
        if ok != 1: bad.append("exit status 0 with %d success messages" % ok)
        if bd: bad.append("exit status 0 and '%s'" % BAD)
        if errs: bad.append("exit status 0 with %d error messages" % errs)
        for f in artefacts(inp, fl):
            p = os.path.join(d, f)
            if res is not None: res.cnt("artefacts_checked")
            if not os.path.isfile(p) or (os.path.getsize(p) == 0 and not f.endswith(".sym")): bad.append("success, but the requested artefact %s is missing or empty" % f)
    else:
        if ok: bad.append("exit status 1 and '%s'" % OK)
        if not usage:
            if bd != 1: bad.append("exit status 1 with %d failure messages" % bd)
            rest = t.replace(BAD, "")
            # everything that is not one of the progress lines
            rest = re.sub(r"(?m)^(template instances|non-linear constraints|linear constraints|public inputs|private inputs|public outputs|wires|labels): .*$|^Written successfully: .*$|^Constraints written in: .*$|^warning.*$", "", rest)
            if not rest.strip(): bad.append("exit status 1 without any error message")
    for f, ln, col in LOC.findall(t):
        p = os.path.join(d, f)
        if res is not None: res.cnt("locations_checked")
        if not os.path.isfile(p):
            bad.append("an error is located in %s, which is not a file" % f); continue
        with open(p, "rb") as fh: src = fh.read().decode("utf-8", "replace")
        lines = src.split("\n")
        n, c = int(ln), int(col)
        if not 1 <= n <= len(lines) or not 1 <= c <= len(lines[n - 1]) + 2:
            bad.append("an error is located at %s:%s:%s, which does not exist" % (f, ln, col))
    return bad
