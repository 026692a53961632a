"""C46: an image of an integer type is treated as the numbers it holds."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check
from vf.gen import SEED, I, pick, rng
from vf.catalog import CALLS
from props.C45 import run, GROUPS, JIT

# phases and coordinates are real numbers, never counts
SKIP = {"unwrap_dct", "unwrap_fft", "unwrap_it", "get_quality_map",
        "get_weight_mask", "ellipse"}
# logarithms of 8-bit numbers come in 16 bits from numpy
NO_UINT8 = {"fbp", "bpf", "fbp_stack", "extend_sinogram", "fresnel_filter",
            "fresnel_filter_2d", "remove_stripe_based_regularization",
            "vertical", "vertical_many"}
# values of a limited range
NO_WIDE = {"beam_hardening", "dots", "binarize_image"}
TYPES = pick("uint8", "uint16", "int16", "int32", "uint32", "float32")


def body(ctx, names, i, seed, h, w, dt, wide):
    name = names[i % len(names)]
    group, f = CALLS[name]
    arrs, call, *_ = f(rng(seed, 302), h, w)
    if dt == "uint8":
        arrs = [np.minimum(a, 255) for a in arrs]
        if name in NO_UINT8:
            dt = "uint16"
    wide = wide and dt not in ("uint8",) and name not in NO_WIDE
    if wide:        # squares and sums of two leave 16 bits
        arrs = [a * (120 if dt == "int16" else 250) for a in arrs]
    exp, refused = run(call, [a.astype("float64") for a in arrs])
    got, refused2 = run(call, [a.astype(dt) for a in arrs])
    ctx.true((refused is None) == (refused2 is None), lambda:
             "%s: refused (%s) or not depending on the type %s" % (
                 name, refused or refused2, dt))
    ctx.label(name, dt, "wide" if wide else "narrow")
    if refused:
        return ctx.nontrivial(False)
    ctx.shape(got, exp.shape, name)
    fin = np.isfinite(exp)
    ctx.same(np.isfinite(got), fin, "%s of %s: finite values" % (name, dt))
    scale = np.abs(exp[fin]).max(initial=0)
    # whole numbers may be rounded, or cut, to whole numbers
    tol = 2e-2 * scale if scale < 30 else 2.02 + 2e-3 * scale
    if dt == "float32":
        tol = 1e-6 + 2e-3 * scale
    off = np.abs(got[fin] - exp[fin])
    if off.size:
        # a decision on the verge may fall either way
        ctx.true(np.mean(off > tol) < 0.02 or (off > tol).sum() <= 1,
                 lambda: "%s of %s: %d of %d values off by more than %.3g, "
                 "worst %.5g" % (name, dt, (off > tol).sum(), off.size, tol,
                                 off.max()))
    ctx.nontrivial(dt != "float32")


def declare(group):
    names = sorted(n for n, (g, _) in CALLS.items()
                   if g == group and n not in SKIP)
    if not names:
        return

    def f(ctx, i, seed, h, w, dt, wide):
        body(ctx, names, i, seed, h, w, dt, wide)
    f.__name__ = group
    f.__module__ = __name__
    f.__doc__ = "Functions on %s: %s." % (group, ", ".join(names))
    jit = group in JIT
    check(quick=(12 if jit else 20) * len(names), cost=4,
          thorough=200 * len(names), dt=TYPES if not jit else pick(
              "uint16", "int32", "float32"), wide=st.booleans(),
          i=I(0, 10 ** 6), seed=SEED, h=I(12, 20), w=I(12, 20))(f)


for g in GROUPS:
    declare(g)
