"""Job streams shared by the checks."""
import os
from .case import PROFILES
from .core import circom
from .field import PRIMES
from .files import read_r1cs, poly

PS = sorted(PRIMES)
LEVELS = [["--O0"], ["--O1"], ["--O2"]]


def stream(c, quick, thorough, flags=LEVELS, profiles=None, other_primes=3, **extra):
    """endless-ish supply of seeded jobs: profile, prime and flags vary independently"""
    n = quick if c.quick else thorough
    pr = sorted(profiles or PROFILES)
    for k in range(n):
        prof = pr[k % len(pr)]
        prime = PS[(k // other_primes) % len(PS)] if k % other_primes == 0 else "bn128"
        yield dict(seed=c.rng.randrange(1 << 40), prime=prime, prof=prof, opts=(profiles or PROFILES)[prof],
                   flags=c.rng.choice(flags), dir=os.path.join(c.scratch, str(k)), k=k, **extra)


def compiled(a, res, text, flags, d=None, name="c.circom", **kw):
    """compile; True when it succeeded.  A timeout is inconclusive, a rejection is left to
    the properties about acceptance."""
    r = circom(text, list(flags) + ["--prime", a["prime"]], d or a["dir"], name=name, **kw)
    if r.timeout:
        res.inc("compile timeout"); return None
    if r.rc:
        res.cnt("rejected_by_compiler")
        if os.environ.get("VP_DEBUG"): print(res.ctx.get("source", text), r.text[-600:])
        return None
    return r


def label_polys(R):
    return [poly(c, R.p, lambda w: R.labels[w]) for c in R.cons]
