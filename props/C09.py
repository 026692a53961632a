"""C09: locating slices in a grid scan with vertical overlaps."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check, also, larger
from vf.gen import SEED, I, array, rng, pick
import algotom.util.utility as util


def grid(height, ovl, side, ncol):
    meta = np.zeros((len(ovl), ncol, 2))
    for i, o in enumerate(ovl):
        meta[i, :, 0] = o
        meta[i, :, 1] = side
    return meta


def model(idx, height, ovl, side):
    """[(grid row, row in that image, weight)] of a slice of the whole."""
    out = []
    g = len(ovl) + 1
    for i in range(g):
        start = i * height - sum(ovl[:i])
        if start <= idx < start + height:
            k = idx - start
            wgt = 1.0
            if i > 0 and k < ovl[i - 1]:
                wgt = k / (ovl[i - 1] - 1.0)
            if i < g - 1 and height - 1 - k < ovl[i]:
                wgt = (height - 1 - k) / (ovl[i] - 1.0)
            out.append((i, k if side == 1 else height - 1 - k, wgt))
    return out


GRID = dict(height=I(5, 40), ovl=st.lists(I(2, 15), min_size=1, max_size=4),
            side=I(0, 1), ncol=I(1, 3))


def fit(height, ovl):
    """Overlaps such that at most two grid rows see the same slice."""
    cap = max(2, (height - 1) // 2)
    return [min(o, cap) for o in ovl]


@check(quick=250, seed=SEED, pos=I(-5, 120), **GRID)
def one_slice(ctx, seed, pos, height, ovl, side, ncol):
    """A slice of the whole volume is found in the right row(s) of the grid,
    at the right image row, with linear weights that add up to one in an
    overlap; a slice outside is found nowhere."""
    ovl = fit(height, ovl)
    total = (len(ovl) + 1) * height - sum(ovl)
    idx = pos if pos < 6 else pos * total // 115
    meta = grid(height, ovl, side, ncol)
    with ctx.unchanged("locate_slice", meta):
        got = util.locate_slice(idx, height, meta)
    want = model(idx, height, ovl, side)
    ctx.eq(len(got), len(want), "slice %d: number of grid rows" % idx)
    for g, w in zip(got, want):
        ctx.eq((int(g[0]), int(g[1])), w[:2], "slice %d: grid row, row" % idx)
        ctx.near(float(g[2]), w[2], "slice %d: weight" % idx, atol=1e-9)
    if 0 <= idx < total:
        ctx.near(sum(float(g[2]) for g in got), 1.0, "sum of weights",
                 atol=1e-9)
    ctx.label("rows%d" % len(want))


@check(quick=200, seed=SEED, a=I(0, 100), b=I(0, 100), **GRID)
def chunk(ctx, seed, a, b, height, ovl, side, ncol):
    """The same for a range of slices, grouped by grid row, in increasing
    order of slices; it agrees with locating the slices one by one."""
    ovl = fit(height, ovl)
    total = (len(ovl) + 1) * height - sum(ovl)
    a, b = sorted((a * total // 100, b * total // 100))
    meta = grid(height, ovl, side, ncol)
    got = util.locate_slice_chunk(a, b, height, meta)
    want = {}
    for s in range(a, b):
        for (i, p, w) in model(s, height, ovl, side):
            want.setdefault(i, []).append((p, w))
        one = util.locate_slice(s, height, meta)
        ctx.eq([int(o[0]) for o in one],
               [m[0] for m in model(s, height, ovl, side)], "one by one")
    ctx.eq([int(r[0][0]) for r in got], sorted(want), "grid rows")
    for row in got:
        i = int(row[0][0])
        ctx.true(all(int(e[0]) == i for e in row), "mixed grid rows")
        ctx.eq([int(e[1]) for e in row], [p for p, _ in want[i]],
               "image rows in grid row %d" % i)
        ctx.near([float(e[2]) for e in row], [w for _, w in want[i]],
                 "weights in grid row %d" % i, atol=1e-9)
    if b > a:
        ctx.raises(ValueError, lambda: util.locate_slice_chunk(
            b, a, height, meta), "stop before start")
    ctx.nontrivial(b > a + 1 and len(want) > 1)
    ctx.label("rows%d" % len(want))


@check(quick=250, seed=SEED, h=I(1, 6), w=I(1, 6), frac=I(1, 10),
       direction=pick("horizontal", "vertical"))
def fill_missing(ctx, seed, h, w, frac, direction):
    """Missing overlaps (area 0) are copied from an adjacent grid cell,
    neighbours along the scan direction first, in a forward pass over the
    input and a backward pass over the result; known ones never change."""
    r = rng(seed)
    meta = np.zeros((h, w, 2))
    meta[..., 0] = r.integers(2, 90, (h, w)) * (r.random((h, w)) * 10 < frac)
    meta[..., 1] = r.integers(0, 2, (h, w))
    with ctx.unchanged("fix_non_sample_areas", meta):
        got = util.fix_non_sample_areas(meta, direction)
    vert = direction == "vertical"
    near = [(0, -1), (0, 1), (-1, 0), (1, 0)]
    if not vert:
        near = [(b, a) for a, b in near]
    cells = [(i, j) for i in range(h) for j in range(w)] if vert else \
        [(i, j) for j in range(w) for i in range(h)]
    want = meta.copy()

    def fill(src):
        for (i, j) in order:
            if src[i, j, 0] != 0:
                continue
            for di, dj in near:
                a, b = i + di, j + dj
                if 0 <= a < h and 0 <= b < w and src[a, b, 0] != 0:
                    want[i, j] = src[a, b]
                    break

    order = cells
    fill(meta)
    order = cells[::-1]
    fill(want)
    ctx.same(got, want, "filled grid")
    known = meta[..., 0] != 0
    ctx.same(got[known], meta[known], "known cells")
    ctx.nontrivial(known.any() and not known.all())


larger(one_slice, 60, 500, 1, height=I(60, 400), ovl=st.lists(
    I(2, 190), min_size=1, max_size=7), pos=I(-5, 1200))
larger(chunk, 6, 60, 10, height=I(60, 200), ovl=st.lists(
    I(2, 90), min_size=1, max_size=6))
larger(fill_missing, 40, 300, 2, h=I(6, 14), w=I(6, 14))
