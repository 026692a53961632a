"""C45: what is given stays as it was; layout in memory does not matter; the
same call gives the same result. For every function that takes arrays."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check
from vf.gen import SEED, I, pick, rng
from vf.catalog import CALLS, flatten

GROUPS = sorted({g for g, _ in CALLS.values()})
DTYPES = pick("float32", "float32", "float64", "uint16")
# compiled code takes floats as they come: fewer types, fewer compilations
JIT = ("correlation", "rec", "vertrec")


def give(a, layout):
    """The same numbers in memory in another way."""
    if layout == "fortran":
        return np.asfortranarray(a)
    if layout == "strided":
        big = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
        box = tuple(slice(None, None, 2) for _ in a.shape)
        big[box] = a
        return big[box]
    if layout == "reversed":
        box = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[box])[box]
    if layout == "part":
        big = np.full(tuple(n + 3 for n in a.shape), 77, a.dtype)
        box = tuple(slice(1, n + 1) for n in a.shape)
        big[box] = a
        return big[box]
    b = a.copy()
    if layout == "readonly":
        b.flags.writeable = False
    return b


def run(call, arrs):
    """Result, or the refusal."""
    np.random.seed(5)
    try:
        return flatten(call(*arrs)), None
    except ValueError as e:
        return None, str(e)


def body(ctx, names, i, seed, h, w, dt, layout):
    name = names[i % len(names)]
    group, f = CALLS[name]
    arrs, call, *more = f(rng(seed, 301), h, w)
    more = more[0] if more else []
    kept = [np.copy(a) for a in more]
    arrs = [np.ascontiguousarray(a).astype(dt) for a in arrs]
    base = [a.copy() for a in arrs]
    exp, refused = run(call, base)
    for a, b in zip(base, arrs):
        ctx.same(a, b, "%s: what is given stays" % name)
    for a, b in zip(more, kept):
        ctx.same(a, b, "%s: what is given besides stays" % name)
    other = [give(a, layout) for a in arrs]
    got, refused2 = run(call, other)
    for a, b in zip(other, arrs):
        ctx.same(a, b, "%s: what is given (%s) stays" % (name, layout))
    ctx.true((refused is None) == (refused2 is None), lambda:
             "%s: refused (%s) or not depending on the layout (%s)" % (
                 name, refused or refused2, layout))
    ctx.label(name, layout)
    if refused:
        ctx.label("refused")
        return ctx.nontrivial(False)
    if layout == "again":
        ctx.same(got, exp, "%s: again" % name)
    else:
        ctx.near(np.abs(got - exp), np.zeros(exp.shape), "%s: as a %s array"
                 % (name, layout), scale=max(1e-6, np.abs(exp[np.isfinite(
                     exp)]).max(initial=0)), rtol=2e-4)


LAYOUT = pick("fortran", "strided", "reversed", "part", "readonly", "again")
ALL = dict(i=I(0, 10 ** 6), seed=SEED, h=I(12, 20), w=I(12, 20),
           layout=LAYOUT)


def declare(group):
    names = sorted(n for n, (g, _) in CALLS.items() if g == group)

    def f(ctx, i, seed, h, w, dt, layout):
        body(ctx, names, i, seed, h, w, dt, layout)
    f.__name__ = group
    f.__module__ = __name__
    f.__doc__ = "Functions on %s: %s." % (group, ", ".join(names))
    jit = group in JIT
    check(quick=(12 if jit else 20) * len(names), cost=4,
          thorough=200 * len(names),
          dt=pick("float32") if jit else DTYPES, **ALL)(f)


for g in GROUPS:
    declare(g)
