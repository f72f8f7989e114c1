"""Running one compiled program on both back ends and stating the outcome."""
from .wit import Wasm, build_cpp, run_cpp
from .files import read_wtns


class Out:
    """outcome of one run: w (values or None), logs, err"""
    def __init__(self, tag, w, logs, err, wtns=None):
        self.tag, self.w, self.logs, self.err, self.wtns = tag, w, logs, err, wtns

    def brief(self):
        return "%s %s" % (self.tag, "gives a witness" if self.w is not None else "refuses (%s)" % str(self.err).strip().split("\n")[0][:120])


def wasm_outs(d, inputs, name="c", **k):
    return [Out("WASM", x["w"], [l for l in x["log"] if not l.startswith("ERR")], x["err"]) for x in Wasm.get().run(d, name, inputs, **k)]


def cpp_outs(d, inputs, cache, res, name="c", kind="plain", tag="C++", env=None, timeout=60):
    """None entries: the run timed out (inconclusive)"""
    exe = build_cpp(d, name, cache, kind)
    out = []
    for inp in inputs:
        x = run_cpp(exe, inp, env=env, timeout=timeout)
        if x["timeout"]:
            res.inc("%s run timed out" % tag); out.append(None); continue
        w = x["w"]
        o = Out(tag, w, x["out"].split("\n")[:-1] if x["out"] else [], "" if w is not None else "exit %s %s" % (x["rc"], x["err"][-300:]), x["wtns"])
        o.rc = x["rc"]
        out.append(o)
    return out
