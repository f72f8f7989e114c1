"""One generated program with its reference runs; result records for worker jobs."""
import os, random, shutil, traceback
from .core import circom, Inconclusive
from .field import Field, PRIMES
from .files import Bad
from .gen2 import GenX as Gen
from .lang import Skip, Invalid, RunFail
from .study import RefRun, Mismatch


def as_str(x):
    if isinstance(x, list): return [as_str(y) for y in x]
    if isinstance(x, dict): return {k: as_str(v) for k, v in x.items()}
    return str(x)


class Res(dict):
    """what one job observed"""

    def __init__(self, **ctx):
        dict.__init__(self, count={}, seen=[], viol=[], inc=[])
        self.ctx = ctx

    def cnt(self, k, n=1): self["count"][k] = self["count"].get(k, 0) + n
    def ev(self, n=1): self.cnt("evaluations", n)
    def seen(self, key, sample=None): self["seen"].append((key, sample) if sample else key)

    def viol(self, key, what, **replay):
        r = dict(self.ctx); r.update(replay)
        self["viol"].append((key, what, r))

    def inc(self, s): self["inc"].append(s)


PROFILES = {
    "default": {},
    "deep": dict(leafs=3, mids=3, stmts=(3, 8)),
    "quad": dict(nonquad=False, unknown_if=False),
    "flat": dict(subs=False, stmts=(6, 14), functions=4),
    "bus": dict(main_bus=True, stmts=(3, 7)),
    "tiny": dict(leafs=1, mids=0, stmts=(1, 3), functions=1, buses=False),
    "big": dict(leafs=3, mids=4, stmts=(4, 10), main_size=4),
    "par": dict(parallel=True),
}


class Case:
    """seeded program + inputs + reference; None of the fields depends on circom"""

    def __init__(self, seed, prime, opts=None, ninputs=1, gen=Gen, inputs=None):
        self.seed, self.prime = seed, prime
        self.F = Field(prime)
        g = gen(random.Random(seed), self.F, **(opts or {}))
        self.prog = g.program()
        self.text = self.prog.text()
        self.shape = RefRun(self.prog, self.F).input_shape()
        self.inputs, self.refs, self.fails = [], [], []
        for k in range(ninputs):
            inp = inputs[k] if inputs else g.inputs(self.shape)
            it, fail = self.ref(inp)
            self.inputs.append(as_str(inp)); self.refs.append(it); self.fails.append(fail)

    def ref(self, inp, asserts=True, constraints=True):
        """reference run on one input -> (interpreter, RunFail or None)"""
        it = RefRun(self.prog, self.F)
        it.check_asserts, it.check_constraints = asserts, constraints
        try:
            it.run(inp)
        except RunFail as e:
            return it, e
        return it, None

    @property
    def it(self): return self.refs[0]


def make_case(seed, prime, opts=None, ninputs=1, gen=Gen):
    """Case, or None when the program falls outside the modelled subset"""
    try:
        return Case(seed, prime, opts, ninputs, gen)
    except (Skip, Invalid):
        return None


def guarded(fn):
    """job wrapper: malformed artefacts are violations, machinery problems are errors;
    the job's directory is removed afterwards"""
    def job(arg):
        d = arg["dir"]
        res = Res(**{k: v for k, v in arg.items() if k not in ("dir", "cache")})
        try:
            fn(arg, res)
        except Bad as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            res.viol("%s/malformed/%s" % (arg.get("key", arg.get("seed")), str(e)[:60]),
                     "malformed artefact: %s (%s)" % (e, tb.name))
        finally:
            if not os.environ.get("VP_KEEP"):
                shutil.rmtree(d, ignore_errors=True)
        return res
    return job
