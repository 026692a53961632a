"""C03: HDF files: streams round-trip, listings are complete and correct."""
import contextlib
import io
import os
import h5py
import numpy as np
from hypothesis import strategies as st
from vf.core import again, check, larger
from vf.gen import SEED, I, KINDS, array, pick
import algotom.io.loadersaver as losa

KEY = pick("entry/data", "data", "a/b/c", "entry/data/data", "x y/z")
DT = pick("float32", "uint8", "uint16", "float64", "int32")


@check(quick=150, seed=SEED, d=I(1, 6), h=I(1, 8), w=I(1, 8), key=KEY, dt=DT,
       ext=pick(".hdf", ".h5", ".nxs", ".hdf5", ".HDF", "", ".dat"),
       nopt=I(0, 3), order=st.permutations([0, 1, 2, 3, 4, 5]),
       retobj=st.booleans(), sub=pick("", "n/m"))
def stream_roundtrip(ctx, seed, d, h, w, key, dt, ext, nopt, order, retobj,
                     sub):
    """open_hdf_stream makes a file of the asked shape and type holding the
    extra metadata, whose slices can be written in any order and are read back
    exactly by load_hdf; wrong keys and paths are ValueErrors."""
    base = ctx.tmpdir()
    path = os.path.join(base, sub, "f" + ext)
    vol = array(seed, (d, h, w), dt, "noise", 0, 200)
    meta = {"meta/val%d" % i: np.arange(i + 1.0) * seed for i in range(nopt)}
    out = losa.open_hdf_stream(path, (d, h, w), key, dt,
                               **({"options": meta} if nopt else {}))
    want = path if ext.lower() in (".hdf", ".h5", ".nxs", ".hdf5") else \
        os.path.join(base, sub, "f.hdf")
    ctx.eq(os.path.realpath(out.file.filename), os.path.realpath(want),
           "file name")
    ctx.shape(out, (d, h, w), "stream")
    ctx.eq(out.dtype, np.dtype(dt), "stream dtype")
    for i in list(order) + list(range(len(order), d)):
        if i < d:
            out[i] = vol[i]
    out.file.close()
    if retobj:
        obj, fobj = losa.load_hdf(want, key, return_file_obj=True)
    else:
        obj = losa.load_hdf(want, key)
        fobj = obj.file
    ctx.same(obj[()], vol, "stream content")
    ctx.same(obj[d // 2, h // 3:, :w // 2 + 1],
             vol[d // 2, h // 3:, :w // 2 + 1], "partial read")
    fobj.close()
    for k, v in meta.items():
        m = losa.load_hdf(want, k)
        ctx.same(m[()], v, "metadata %s" % k)
        m.file.close()
    ctx.raises(ValueError, lambda: losa.load_hdf(want, key + "_no"),
               "wrong key")
    ctx.raises(ValueError, lambda: losa.load_hdf(want + "x", key),
               "wrong path")
    ctx.nontrivial(d > 1)


NAMES = ["entry", "data", "image_key", "Scan", "Data", "z1"]
TREE = st.recursive(
    st.sampled_from(["dset", "scalar", "empty", "dset", "scalar", "empty",
                     "dangling", "string"]),
    lambda ch: st.dictionaries(st.sampled_from(NAMES), ch, min_size=1,
                               max_size=3), max_leaves=9)


def write_tree(g, tree, seed, path=""):
    """Create the tree, return {path: shape/dtype or None for a group}."""
    out = {}
    for k in sorted(tree):
        v = tree[k]
        p = path + "/" + k if path else k
        if isinstance(v, dict):
            out[p] = None
            out.update(write_tree(g.create_group(k), v, seed, p))
        elif v == "empty":
            g.create_group(k)
            out[p] = None
        elif v == "dangling":           # a link to a file that is not there
            g[k] = h5py.ExternalLink("no_such_file.h5", "/x")
            out[p] = None
        elif v == "string":
            g[k] = "text of %s" % k
            out[p] = ((), g[k].dtype)
        else:
            n = (seed + len(p)) % 4 + 1
            data = (np.float32(seed % 97) if v == "scalar" else
                    array(seed, (n, 2, 3)[:1 + n % 3], "uint16", "noise", 0,
                          9))
            g[k] = data
            out[p] = (np.shape(data), np.asarray(data).dtype)
    return out


TOP = st.dictionaries(st.sampled_from(NAMES), TREE, min_size=0, max_size=3)


@check(quick=200, seed=SEED, tree=TOP,
       pattern=pick("data", "entry", "image_key", "entry/data", "nothing",
                    "z", "", "Data", "scan", "ENTRY", "Z"))
def listings(ctx, seed, tree, pattern):
    """For random group/dataset trees: get_hdf_information lists every dataset
    with its true shape and type (and nothing that is not in the file);
    find_hdf_key gives exactly the listed keys containing the pattern."""
    base = ctx.tmpdir()
    path = os.path.join(base, "t.nxs")
    with h5py.File(path, "w") as f:
        model = write_tree(f, tree, seed)
    keys, shapes, types = losa.get_hdf_information(path)
    ctx.true(len(keys) == len(shapes) == len(types), "lengths differ")
    for k, s, t in zip(keys, shapes, types):
        kk = k.strip("/")
        ctx.true(kk in model, "listed key %r is not in the file" % k)
        m = model[kk]
        if m is None:
            ctx.true(s is None and t is None, "group %r has a shape" % k)
        else:
            ctx.true(s == m[0] and t == m[1], "%r listed as %s %s, is %s"
                     % (k, s, t, m))
    want = {k for k, v in model.items() if v is not None}
    got = {k.strip("/") for k, s in zip(keys, shapes) if s is not None}
    ctx.eq(sorted(got), sorted(want), "datasets listed")
    fk, fs, ft = losa.find_hdf_key(path, pattern)
    ctx.eq(fk, [k for k in keys if pattern in k], "find_hdf_key keys")
    ctx.eq(fs, [s for k, s in zip(keys, shapes) if pattern in k],
           "find_hdf_key shapes")
    ctx.eq(ft, [t for k, t in zip(keys, types) if pattern in k],
           "find_hdf_key types")
    shown = io.StringIO()
    with contextlib.redirect_stdout(shown):
        losa.find_hdf_key(path, pattern, display=True)
    for k, s in zip(fk, fs):
        ctx.true(any(k in ln and str(s) in ln for ln in
                     shown.getvalue().splitlines()), "%r is not shown" % k)
    ctx.nontrivial(len(model) > 2)
    ctx.label("depth%d" % max([k.count("/") for k in model], default=0))


@check(quick=150, seed=SEED, tree=TOP, shape=st.booleans(),
       tofile=st.booleans())
def tree_listing(ctx, seed, tree, shape, tofile):
    """get_hdf_tree shows every node of the file once, depth-first in name
    order, with dataset shapes if asked, links that lead nowhere included;
    written to a file it is the same."""
    base = ctx.tmpdir()
    path = os.path.join(base, "t.h5")
    with h5py.File(path, "w") as f:
        model = write_tree(f, tree, seed)
    out = os.path.join(base, "o", "tree.txt") if tofile else None
    lines = list(losa.get_hdf_tree(path, output=out, add_shape=shape,
                                   display=False))
    strip = "\u2502\u2514\u251c\u2500 "
    got = [ln.lstrip(strip) for ln in lines if ln.strip(strip)]

    def order(tree, p=""):
        res = []
        for k in sorted(tree):
            q = p + "/" + k if p else k
            m = model[q]
            res.append(k + (" " + str(m[0]) if shape and m is not None else
                            ""))
            if isinstance(tree[k], dict):
                res += order(tree[k], q)
        return res

    # (a link that leads nowhere may be marked as such)
    ctx.eq([g.split(" -> ")[0] for g in got], order(tree), "tree listing")
    # the last of a group ends its branch, the others go on

    def last(tree):
        res = []
        names = sorted(tree)
        for k in names:
            res.append(k == names[-1])
            if isinstance(tree[k], dict):
                res += last(tree[k])
        return res

    named = [ln for ln in lines if ln.strip(strip)]
    for ln, end in zip(named, last(tree)):
        ctx.eq("\u251c" in ln, not end, "branch of %r goes on" % ln)
    shown = io.StringIO()
    with contextlib.redirect_stdout(shown):
        losa.get_hdf_tree(path, add_shape=shape)
    ctx.eq(shown.getvalue().splitlines(), lines, "tree shown")
    if tofile:
        with open(out, encoding="UTF-8") as f:
            ctx.eq(f.read().splitlines(), lines, "tree written to file")
    ctx.nontrivial(len(model) > 2)


larger(stream_roundtrip, d=I(20, 130), h=I(20, 130), w=I(20, 130))


# paths used before
again(stream_roundtrip)
again(listings)
again(tree_listing)
