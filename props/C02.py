"""C02: nothing that was asked not to overwrite destroys existing data."""
import hashlib
import os
import h5py
import numpy as np
from hypothesis import strategies as st
from vf.core import check
from vf.gen import SEED, I, array, pick
import algotom.io.loadersaver as losa
import algotom.io.converter as conv
import algotom.post.postprocessing as post


def snapshot(root):
    """relative path -> content hash (None for a directory)."""
    out = {}
    for d, dirs, files in os.walk(root):
        for x in dirs:
            out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in files:
            p = os.path.join(d, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = hashlib.sha1(
                    f.read()).hexdigest()
    return out


def lost(before, after, allowed=()):
    return sorted(k for k, v in before.items()
                  if k not in allowed and after.get(k, 0) != v)


OPS = st.lists(st.fixed_dictionaries({
    "op": pick("img", "img", "hdf", "coef", "multi", "mkname"),
    "name": pick("a", "a", "b", "a_0000", "a_0001"),
    "sub": pick("", "s"),
    "ow": pick(False, False, False, True),
    "ext": pick(True, True, False), "axis": I(0, 2), "ncore": I(1, 2),
    "seed": SEED}), min_size=1, max_size=12)


@check(quick=150, ops=OPS)
def save_histories(ctx, ops):
    """Histories of saves into a few names, modelled by a map from path to
    content: overwrite=False always makes a new file and leaves every other
    byte alone, overwrite=True touches just the named file. Non-trivial: some
    overwrite=False save hits an existing name."""
    base = ctx.tmpdir()
    hits = 0
    for k, o in enumerate(ops):
        before = snapshot(base)
        folder = os.path.join(base, o["sub"]) if o["sub"] else base
        val = array(o["seed"], (3, 4), "float32", "noise", k, k + 1)
        made = []
        if o["op"] == "img":
            path = os.path.join(folder, o["name"] + ".tif")
            exists = os.path.exists(path)
            got = str(losa.save_image(path, val, overwrite=o["ow"]))
            made = [got]
            ctx.same(losa.load_image(got), val, "image at the returned path")
        elif o["op"] == "multi":
            paths = [os.path.join(folder, o["name"] + e + ".tif")
                     for e in ("", "_x", "_y")]
            exists = any(os.path.exists(p) for p in paths)
            losa.save_image_multiple(paths, np.stack(
                [val, val + 1, val + 2], axis=o["axis"]), axis=o["axis"],
                overwrite=o["ow"], ncore=o["ncore"])
            after = snapshot(base)
            made = [os.path.join(base, r) for r in after if r not in before
                    and after[r] is not None]
            if o["ow"]:
                made = paths
            ctx.eq(len(made), 3, "number of files written by a batch")
            path = paths
        elif o["op"] == "hdf":
            path = os.path.join(folder, o["name"] + ".hdf")
            exists = os.path.exists(path)
            d = losa.open_hdf_stream(path if o["ext"] else path[:-4],
                                     (3, 4), "e/d",
                                     overwrite=o["ow"])
            d[:] = val
            got = d.file.filename
            d.file.close()
            with h5py.File(got, "r") as f:
                ctx.same(f["e/d"][()], val, "hdf stream content")
            made = [got]
        elif o["op"] == "coef":
            path = os.path.join(folder, o["name"] + ".txt")
            exists = os.path.exists(path)
            got = str(losa.save_distortion_coefficient(
                path if o["ext"] else path[:-4], float(k), 2.0, [float(val[0, 0])], overwrite=o["ow"]))
            ctx.eq(losa.load_distortion_coefficient(got)[0], float(k),
                   "coefficients at the returned path")
            made = [got]
        else:
            path = os.path.join(folder, o["name"] + ".tif")
            exists = os.path.exists(path)
            got = losa.make_file_name(path)
            ctx.true(not os.path.exists(got),
                     "make_file_name returned a taken name")
            ctx.true(exists or got == path, "free name was changed")
            ctx.eq(snapshot(base), before, "make_file_name touched the disk")
            continue
        after = snapshot(base)
        rel = [os.path.relpath(os.path.realpath(m), os.path.realpath(base))
               for m in made]
        if not o["ow"]:
            hits += exists
            ctx.eq(lost(before, after), [], "overwrite=False lost data in")
            for r in rel:
                ctx.true(r not in before, "overwrite=False reused %s" % r)
        else:
            ctx.eq(lost(before, after, rel), [], "other files changed")
            want = [os.path.realpath(p) for p in
                    (path if isinstance(path, list) else [path])]
            ctx.eq([os.path.realpath(m) for m in made], want,
                   "overwrite=True wrote elsewhere")
        extra = [r for r, v in after.items() if r not in before
                 and v is not None and r not in rel]
        ctx.eq(extra, [], "stray files")
    ctx.nontrivial(hits > 0)


@check(quick=120, names=st.lists(st.tuples(pick("Out", "Out2", "O"), I(1, 8),
                                           pick(3, 5), st.booleans()),
                                 max_size=6),
       prefix=pick("Out", "O"), zero=pick(3, 5), n=I(1, 4),
       runs=st.lists(st.tuples(I(1, 6), I(1, 4)), max_size=2))
def folder_names(ctx, names, prefix, zero, n, runs):
    """make_folder_name never returns the name of an existing folder, also
    with gaps and files of the same name pattern; names stay ordered."""
    base = ctx.tmpdir()
    for (p, i, z, isdir) in names:
        q = os.path.join(base, "%s_%0*d" % (p, z, i))
        if isdir:
            os.makedirs(q, exist_ok=True)
    for (i, k) in runs:                 # successive numbers, after a gap
        for j in range(i, i + k):
            os.makedirs(os.path.join(base, "%s_%0*d" % (prefix, zero, j)),
                        exist_ok=True)
    got = []
    for _ in range(n):
        name = losa.make_folder_name(base, prefix, zero)
        ctx.true(name.startswith(prefix + "_"), "prefix of %r" % name)
        ctx.true(len(name) >= len(prefix) + 1 + zero, "padding of %r" % name)
        ctx.true(not os.path.exists(os.path.join(base, name)),
                 "make_folder_name returned an existing folder %r" % name)
        os.makedirs(os.path.join(base, name))
        got.append(name)
    ctx.nontrivial(len(os.listdir(base)) > n)
    ctx.eq(len(set(got)), n, "distinct names")


@check(quick=40, n=st.one_of(I(0, 40), pick(9, 10, 11, 99, 100, 101, 130)),
       hole=st.one_of(st.none(), I(0, 130)), zero=pick(1, 2, 3, 5),
       name=pick("a", "a_0", "a.b"), ext=pick(".tif", ".txt", ".hdf", ""),
       ask=I(1, 3))
def many_taken(ctx, n, hole, zero, name, ext, ask):
    """However many numbered files or folders there are already, the next
    name is a free one."""
    base = ctx.tmpdir()
    first = os.path.join(base, name + ext)
    open(first, "w").close()
    for i in range(n):
        if i != hole:
            stem, e = os.path.splitext(first)
            open("%s_%04d%s" % (stem, i, e), "w").close()
            os.mkdir(os.path.join(base, "Out_%0*d" % (zero, i + 1)))
    for _ in range(ask):
        got = losa.make_file_name(first)
        ctx.true(not os.path.exists(got), "taken name %r" % got)
        ctx.eq(os.path.dirname(got), base, "folder")
        ctx.eq(os.path.splitext(got)[1], os.path.splitext(first)[1],
               "extension")
        open(got, "w").close()
        got = losa.make_folder_name(base, "Out", zero)
        ctx.true(got.startswith("Out_"), "prefix of %r" % got)
        ctx.true(not os.path.exists(os.path.join(base, got)),
                 "taken folder name %r" % got)
        os.mkdir(os.path.join(base, got))
    ctx.nontrivial(n > 1)
    ctx.label("10 or more" if n > 9 else "few")


def make_input(base, kind, vol):
    if kind == "hdf":
        p = os.path.join(base, "input.hdf")
        with h5py.File(p, "w") as f:
            f["entry/data"] = vol
        return p, "entry/data"
    p = os.path.join(base, "input")
    losa.save_image_multiple(p, vol, ncore=1)
    return p, None


@check(quick=60, seed=SEED, func=pick("downsample", "rescale", "reslice"),
       inkind=pick("hdf", "tif"), outkind=pick("hdf", "tif"),
       neighbour=pick("folder", "file", "none"), exists=st.booleans(),
       overwrite=st.booleans(), axis=pick(1, 2), ncall=I(1, 2))
def dataset_tools(ctx, seed, func, inkind, outkind, neighbour, exists,
                  overwrite, axis, ncall):
    """downsample/rescale/reslice_dataset: with overwrite=False an existing
    target is refused and untouched; in every case the input and unrelated
    files around the target (a sibling folder with the target's base name
    included) survive and no temporary file stays."""
    base = ctx.tmpdir()
    vol = array(seed, (6, 6, 6), "float32", "noise", 0, 10)
    src, key = make_input(base, inkind, vol)
    work = os.path.join(base, "work")
    os.makedirs(work)
    out = os.path.join(work, "res.hdf" if outkind == "hdf" else "res")
    if neighbour == "folder":
        os.makedirs(os.path.join(work, "res" if outkind == "hdf" else "re"))
        with open(os.path.join(work, "res" if outkind == "hdf" else "re",
                               "keep.txt"), "w") as f:
            f.write("precious")
    elif neighbour == "file":
        with open(os.path.join(work, "keep.txt"), "w") as f:
            f.write("precious")
    if exists:
        if outkind == "hdf":
            with h5py.File(out, "w") as f:
                f["entry/data"] = np.zeros(3)
        else:
            os.makedirs(out)
            with open(os.path.join(out, "old.txt"), "w") as f:
                f.write("old")

    def call(ow):
        if func == "downsample":
            post.downsample_dataset(src, out, 2, key_path=key, overwrite=ow)
        elif func == "rescale":
            post.rescale_dataset(src, out, nbit=8, minmax=(0, 10),
                                 key_path=key, overwrite=ow)
        else:
            post.reslice_dataset(src, out, axis=axis, key_path=key, ncore=1,
                                 show_progress=False, overwrite=ow)

    rel = os.path.relpath(out, base)
    for i in range(ncall):
        before = snapshot(base)
        taken = os.path.exists(out)
        if taken and not overwrite:
            ctx.raises(ValueError, lambda: call(False),
                       "existing output accepted")
            ctx.eq(snapshot(base), before, "refused call changed the disk")
        else:
            call(overwrite)
            after = snapshot(base)
            ctx.eq(lost(before, after, [rel] + (
                [r for r in before if r.startswith(rel + os.sep)
                 and r.endswith(".tif")] if outkind == "tif" else [])), [],
                "%s lost data in" % func)
            ctx.true(os.path.exists(out), "no output written")
            if outkind == "hdf":
                with h5py.File(out, "r") as f:
                    ctx.eq(f["entry/data"].ndim, 3,
                           "the output file does not hold the new data")
            new = [r for r in after if r not in before and r != rel and not (
                outkind == "tif" and r.startswith(rel + os.sep)
                and r.endswith(".tif"))]
            ctx.eq(new, [], "%s left stray files" % func)
    ctx.nontrivial(exists or neighbour != "none")
    ctx.label(func, "exists" if exists else "new", neighbour)
