"""C48: an option left out takes its documented value; options may be given by
name or by position."""
import os

import h5py
import numpy as np
from hypothesis import strategies as st
from vf.core import check
from vf.gen import SEED, I, F, rng
from vf.catalog import flatten, img

import algotom.io.converter as cvt
import algotom.io.loadersaver as losa
import algotom.post.postprocessing as post
import algotom.prep.calculation as calc
import algotom.prep.conversion as conv
import algotom.prep.correction as corr
import algotom.prep.filtering as filt
import algotom.prep.phase as ps
import algotom.prep.removal as remo
import algotom.rec.reconstruction as rec
import algotom.rec.vertrec as vr
import algotom.util.calibration as cal
import algotom.util.correlation as corl
import algotom.util.simulation as sim
import algotom.util.utility as util

NO_CROP, NO_CROP3 = (0, 0, 0, 0), (0, 0, 0, 0, 0, 0)
# group -> list of (function, arguments from a generator, documented options
# in their order: name -> (value, another value))
TABLE = {}


def add(group, func, args, after=(), **opts):
    """after: options which are given to keep the call cheap."""
    TABLE.setdefault(group, []).append((func, args, opts, dict(after)))


def one(h=40, w=44):
    return lambda r: (img(r, h + int(r.integers(4)), w + int(r.integers(4))),)


def two(h=40, w=44):
    return lambda r: (img(r, h, w), img(r, h, w))


def wide(r):
    """With stripes of all strengths."""
    a = img(r, 64 + int(r.integers(4)), 90 + int(r.integers(4)))
    for k in range(5, 90, 7):
        n = int(r.integers(1, 4))
        a[:, k:k + n] += np.round(r.uniform(0, 60))
    a[:, 40:42] = np.round(a[0, 40])
    a[:, 61] = np.round(80 + 70 * (np.arange(len(a)) % 2))
    return (a,)


# removal ---------------------------------------------------------------------
add("removal", remo.remove_stripe_based_sorting, wide, size=(21, 7),
    dim=(1, 2))
add("removal", remo.remove_stripe_based_filtering, wide, sigma=(3, 5),
    size=(21, 7), dim=(1, 2), sort=(True, False))
add("removal", remo.remove_stripe_based_fitting, wide, order=(2, 1),
    sigma=(10, 4), sort=(False, True), num_chunk=(1, 2))
add("removal", remo.remove_large_stripe, wide, snr=(3.0, 1.5),
    size=(51, 11), drop_ratio=(0.1, 0.3), norm=(True, False))
add("removal", remo.remove_dead_stripe, wide, snr=(3.0, 1.5), size=(51, 11),
    residual=(True, False), smooth_strength=(10, 4))
add("removal", remo.remove_all_stripe, wide, snr=(3.0, 1.5),
    la_size=(51, 15), sm_size=(21, 7), drop_ratio=(0.1, 0.3), dim=(1, 2))
add("removal", remo.remove_stripe_based_2d_filtering_sorting, wide,
    sigma=(3, 5), size=(21, 7), dim=(1, 2))
add("removal", remo.remove_stripe_based_normalization, wide, sigma=(15, 4),
    num_chunk=(1, 2), sort=(True, False))
add("removal", remo.remove_stripe_based_regularization, wide,
    alpha=(0.0005, 0.01), num_chunk=(1, 2), apply_log=(True, False),
    sort=(True, False))
add("removal", remo.remove_stripe_based_fft, wide, u=(20, 8), n=(8, 4),
    v=(1, 2), sort=(False, True))
add("removal", remo.remove_stripe_based_wavelet_fft,
    lambda r: (img(r, 600, 600),), level=(5, 2), size=(1, 3),
    wavelet_name=("db9", "db5"), window_name=("gaussian", "butter"),
    sort=(False, True))
add("removal", remo.remove_stripe_based_interpolation, wide, snr=(3.0, 1.5),
    size=(51, 11), drop_ratio=(0.1, 0.3), norm=(True, False),
    kind=("linear", "cubic"))
add("removal", remo.remove_zinger, lambda r: (img(r, 40, 44), 0.05),
    size=(2, 3), check_size=(False, True))


# calculation -----------------------------------------------------------------
def overlapping(r):
    big = img(r, 30, 120)
    return big[:, :70].copy(), big[:, 52:].copy()


SEARCH = dict(denoise=(True, False), norm=(False, True),
              use_overlap=(False, True))
N1 = {"ncore": 1}
add("calculation", calc.search_overlap,
    lambda r: overlapping(r) + (10, 1), N1, **SEARCH)
add("calculation", calc.find_overlap, lambda r: overlapping(r) + (10,), N1,
    side=(None, 1), **SEARCH)
add("calculation", calc.find_overlap_multiple,
    lambda r: (list(overlapping(r)), 10), N1, side=(None, 1), **SEARCH)
add("calculation", calc.find_center_360, lambda r: (img(r, 60, 50), 10), N1,
    side=(None, 0), **SEARCH)
add("calculation", calc.find_center_projection, overlapping, N1,
    flip=(True, False), win_width=(None, 12), chunk_height=(None, 0.5),
    start_row=(None, 5), **SEARCH)
add("calculation", calc.find_center_based_phase_correlation, two(),
    flip=(True, False), gradient=(True, False))
add("calculation", calc.find_shift_based_phase_correlation, two(),
    gradient=(True, False))
VO = dict(hor_drop=(None, 3), ver_drop=(None, 4))
add("calculation", calc.coarse_search_cor,
    lambda r: (img(r, 40, 50), 20, 28), {"ncore": 1, "hor_drop": None,
                                         "ver_drop": None},
    ratio=(0.5, 0.1), denoise=(True, False))
add("calculation", calc.fine_search_cor,
    lambda r: (img(r, 40, 50), 24, 2, 0.5), {"ncore": 1, "hor_drop": None,
                                             "ver_drop": None},
    ratio=(0.5, 0.1), denoise=(True, False))
add("calculation", calc.find_center_vo, lambda r: (img(r, 40, 50),), N1,
    start=(None, 20), stop=(None, 29), step=(0.25, 0.5), radius=(4, 2),
    ratio=(0.5, 0.9), dsp=(True, False))
add("calculation", calc.make_inverse_double_wedge_mask,
    lambda r: (20 + int(r.integers(30)), 30 + int(r.integers(30)), 20.0),
    hor_drop=(None, 3), ver_drop=(None, 4))


# conversion ------------------------------------------------------------------
def heli(r):
    """A stack of a helical scan; see C20."""
    n, h, w = 40, 12, 15
    return (int(r.integers(0, 4)), img(r, n, h, w), 9, 1.0, 0.0, 20.0, 9.0)


add("conversion", conv.join_image, lambda r: (img(r, 20, 24), img(
    r, 20, 24), 6, 1), norm=(True, False), total_width=(None, 70))
add("conversion", conv.stitch_image, lambda r: (img(r, 20, 24), img(
    r, 20, 24), 6, 1), {"wei_mat1": None, "wei_mat2": None},
    norm=(True, False), total_width=(None, 70))
add("conversion", conv.join_image_multiple, lambda r: (
    [img(r, 20, 24) for _ in range(3)], [[5, 1], [4.5, 1]]),
    norm=(True, False), total_width=(None, 99))
add("conversion", conv.stitch_image_multiple, lambda r: (
    [img(r, 20, 24) for _ in range(3)], [[5, 1], [4.5, 1]]),
    norm=(True, False), total_width=(None, 99))
add("conversion", conv.convert_sinogram_360_to_180,
    lambda r: (img(r, 21, 24), 10.3), {"wei_mat1": None, "wei_mat2": None},
    norm=(True, False), total_width=(None, 70))
add("conversion", conv.extend_sinogram, lambda r: (
    img(r, 21, 24), 10.3), apply_log=(True, False))
add("conversion", conv.generate_sinogram_helical_scan, heli,
    scan_type=("180", "360"), angles=(None, np.arange(40) * 20.0),
    flat=(None, np.full((12, 15), 240.0)),
    dark=(None, np.full((12, 15), 0.5)), mask=(None, None),
    crop=(NO_CROP, (1, 0, 0, 2)))
add("conversion", conv.generate_full_sinogram_helical_scan, heli,
    scan_type=("180", "360"), angles=(None, np.arange(40) * 20.0),
    flat=(None, np.full((12, 15), 240.0)),
    dark=(None, np.full((12, 15), 0.5)), mask=(None, None),
    crop=(NO_CROP, (1, 0, 0, 2)))

# correction, filtering -------------------------------------------------------
add("correction", corr.beam_hardening_correction, lambda r: (
    img(r, 20, 24) / 256, 0.4, 2.5), opt=(True, False))
add("correction", corr.non_linear_function, lambda r: (
    img(r, 20, 24) / 256, 0.4, 2.5), opt=(True, False))
add("correction", corr.flat_field_correction, lambda r: (
    img(r, 3, 20, 24), img(r, 20, 24) + 40, img(r, 20, 24) / 10),
    ratio=(1.0, 0.8), use_dark=(True, False))
add("correction", corr.upsample_sinogram, lambda r: (
    img(r, 20, 24), 2), {"center": 11.4}, sino_type=("180", "360"),
    iteration=(1, 2), pad=(50, 20))
add("correction", filt.double_wedge_filter, lambda r: (img(r, 20, 24), 11.4),
    sino_type=("180", "360"), iteration=(5, 2), mask=(None, None),
    ratio=(1.0, 0.7), pad=(250, 40))
add("correction", filt.fresnel_filter, lambda r: (img(r, 20, 24) / 201, 50),
    dim=(1, 2), window=(None, None), pad=(150, 30), apply_log=(True, False))


# phase, correlation ----------------------------------------------------------
def speck(r):
    from scipy.ndimage import shift
    a = img(r, 3, 40, 41)
    return a, np.array([shift(i, 0.6, mode="reflect") for i in a]) + 5 * \
        r.random(a.shape)


def speck2(r):
    a, b = speck(r)
    return a[0], b[0]


GLOBAL = dict(sub_pixel=(True, False), method=("diff", "poly_fit"),
              size=(3, 5))
PTS = [[18, 20, 22, 19, 21, 17, 16, 23, 24, 20],
       [18, 21, 20, 22, 19, 24, 20, 23, 18, 17]]
CPU = {"gpu": False, "block": 32, "ncore": 1}
add("phase", ps.align_image_stacks, lambda r: speck(r) + (
    r.uniform(-2, 2, (3, 2)),), sam_shifts=(None, [[1.2, 0.3]] * 3),
    mode=("reflect", "constant"))
add("phase", ps.find_shift_between_image_stacks, lambda r: speck(r) + (
    7, 4, PTS), CPU, global_value=("mixed", "mean"), norm=(False, True),
    **GLOBAL)
add("phase", ps.find_shift_between_sample_images, lambda r: speck(r) + (
    np.full((3, 2), 0.4), 7, 4, PTS), CPU, global_value=("median", "mean"),
    norm=(False, True), **GLOBAL)
add("phase", ps.get_weight_mask, one(), snr=(1.5, 0.5))
add("phase", ps.reconstruct_surface_from_gradient_FC_method, two(20, 24),
    correct_negative=(True, False), window=(None, None))
add("phase", ps.reconstruct_surface_from_gradient_SCS_method, two(20, 24),
    correct_negative=(True, False), window=(None, None), pad=(0, 10),
    pad_mode=("linear_ramp", "edge"))
add("phase", ps.unwrap_phase_iterative_fft, one(20, 24), iteration=(4, 2))
add("phase", ps.get_transmission_dark_field_signal, lambda r: speck(r) + (
    r.uniform(-2, 2, (40, 41)), r.uniform(-2, 2, (40, 41)), 5), N1,
    margin=(None, 4))
RETR = dict(dark_signal=(False, True), dim=(1, 2), win_size=(7, 5),
            margin=(10, 4), method=("diff", "poly_fit"), size=(3, 5),
            norm=(True, False), norm_global=(False, True),
            chunk_size=(100, 20), surf_method=("SCS", "FC"),
            correct_negative=(True, False), window=(None, None),
            pad=(100, 20), pad_mode=("linear_ramp", "edge"),
            return_shift=(False, True))
add("phase", ps.retrieve_phase_based_speckle_tracking, lambda r: tuple(
    a[:, :32, :30] for a in speck(r)), {"gpu": False, "ncore": 1},
    find_shift=("correl", "correl"), filter_name=("hamming", "hann"), **RETR)
add("correlation", corl.find_local_shifts, lambda r: tuple(
    a[:, :30, :29] for a in speck(r)), {"gpu": False, "ncore": 1},
    dim=(1, 2), win_size=(7, 5), margin=(10, 4), method=(
        "diff", "poly_fit"), size=(3, 5), norm=(True, False),
    norm_global=(False, True), chunk_size=(100, 9))
add("correlation", corl.find_local_shifts_umpa, lambda r: tuple(
    a[:2, :28, :29] for a in speck(r)), {"gpu": False, "ncore": 1},
    win_size=(7, 5), margin=(10, 4), method=("diff", "poly_fit"),
    size=(3, 5), chunk_size=(100, 9), filter_name=("hamming", "hann"),
    dark_signal=(False, True))
add("correlation", corl.find_shift_based_correlation_map, speck2,
    margin=(10, 4), axis=(None, 1), sub_pixel=(True, False),
    method=("diff", "poly_fit"), dim=(2, 1), size=(3, 5))
add("correlation", corl.find_global_shift_based_local_shifts,
    lambda r: speck2(r) + (7, 4), CPU, list_ij=(None, PTS),
    num_point=(None, 12), global_value=("mixed", "median"),
    norm=(False, True), return_list=(False, True), **GLOBAL)
add("correlation", corl.locate_peak, one(9, 9), sub_pixel=(True, False),
    method=("diff", "poly_fit"), dim=(2, 1), size=(3, 5),
    max_peak=(True, False))

# reconstruction --------------------------------------------------------------
FILT = dict(ramp_win=(None, None), filter_name=(None, "hann"),
            pad=(None, 7), pad_mode=("edge", "constant"))
ANG = np.linspace(0, 3, 24)
add("rec", rec.apply_ramp_filter, one(24, 30), **FILT)
add("rec", rec.apply_circular_ramp_filter, lambda r: (img(
    r, 31, 31),), **FILT)
REC = dict(angles=(None, ANG), ratio=(1.0, 0.8), ramp_win=(None, None),
           filter_name=("hann", "cosine"), pad=(None, 7),
           pad_mode=("edge", "constant"), apply_log=(True, False))
add("rec", rec.fbp_reconstruction, lambda r: (img(r, 24, 30) / 210, 14.2),
    **REC)
add("rec", rec.bpf_reconstruction, lambda r: (img(r, 24, 30) / 210, 14.2),
    **REC)
add("rec", rec.dfi_reconstruction, lambda r: (img(r, 24, 30) / 210, 14.2),
    N1, angles=(None, ANG), ratio=(1.0, 0.8), filter_name=("hann", "cosine"),
    pad_rate=(0.25, 0.5), pad_mode=("edge", "constant"),
    apply_log=(True, False))
add("rec", rec.back_projection_cpu, lambda r: (
    np.float32(img(r, 24, 30)), np.float32(ANG), np.float32(14.2)),
    edge_pad=(False, True))
add("rec", rec.find_center_based_slice_metric, lambda r: (
    img(r, 24, 30) / 210, 12, 17), N1, step=(0.5, 1.0),
    metric=("entropy", "sharpness"), radius=(2, 1), zoom=(1.0, 0.5),
    method=("fbp", "dfi"), angles=(None, ANG), ratio=(1.0, 0.8),
    filter_name=("hann", "cosine"), apply_log=(True, False), sigma=(2, 0),
    invert_metric=(False, True), metric_function=(None, None))
add("rec", rec.make_2d_ramp_window, lambda r: (
    10 + int(r.integers(9)), 12 + int(r.integers(9))),
    filter_name=(None, "hann"))
add("rec", rec.make_circular_ramp_window, lambda r: (
    12 + int(r.integers(9)),), filter_name=(None, "hann"))


# vertical slices -------------------------------------------------------------
def projections(r):
    return img(r, 24, 20, 22) / 210


QUIET = {"gpu": False, "ncore": 1, "show_progress": False}
VERT = dict(chunk_size=(30, 7), ramp_filter=("after", "before"),
            filter_name=("hann", "cosine"), pad=(None, 5),
            pad_mode=("edge", "constant"), apply_log=(True, False),
            masking=(False, True))
FIXED = dict(flat_field=(None, None), dark_field=(None, None),
             angles=(None, None), crop=(NO_CROP, NO_CROP),
             proj_start=(0, 0), proj_stop=(-1, -1))
add("vertrec", vr.vertical_reconstruction, lambda r: (
    projections(r), 11, 10.2), QUIET, alpha=(0.0, 20.0), **FIXED, **VERT)
add("vertrec", vr.vertical_reconstruction_multiple, lambda r: (
    projections(r), 8, 12, 10.2), QUIET, alpha=(0.0, 20.0),
    step_index=(1, 2), **FIXED, **VERT)
add("vertrec", vr.vertical_reconstruction_different_angles, lambda r: (
    projections(r), [9, 12], [10.0, 40.0], 10.2), QUIET, **FIXED, **VERT)
add("vertrec", vr.find_center_vertical_slice, lambda r: (
    projections(r), 11, 8, 13), dict(QUIET, return_metric=True), step=(1.0, 0.5),
    metric=("entropy", "sharpness"), alpha=(0.0, 20.0), angles=(None, None),
    chunk_size=(30, 7), ramp_filter=("after", "before"), sigma=(3, 0),
    apply_log=(True, False), masking=(True, False),
    invert_metric=(False, True),
    metric_function=(None, None))

# post, calibration, simulation, utility --------------------------------------
add("post", post.downsample, lambda r: (img(r, 20, 24), (2, 3)),
    method=("mean", "max"))
add("post", post.get_statistical_information, one(),
    percentile=((0, 100), (5, 95)), denoise=(False, True))
add("post", post.get_statistical_information_dataset, lambda r: (
    img(r, 23, 12, 13),), percentile=((0, 100), (5, 95)), skip=(5, 3),
    denoise=(False, True), key_path=(None, None),
    crop=(NO_CROP3, (1, 2, 0, 3, 2, 0)))
add("post", post.remove_ring_based_fft, lambda r: (img(r, 50, 50),),
    u=(20, 8), n=(8, 4), v=(1, 2), sort=(False, True))
add("post", post.remove_ring_based_wavelet_fft,
    lambda r: (img(r, 600, 600),), level=(5, 2), size=(1, 3),
    wavelet_name=("db9", "db5"), sort=(False, True))
add("post", post.rescale, one(), nbit=(16, 8), minmax=(None, (20, 90)))
BIN = dict(threshold=(None, 110.0), bgr=("bright", "dark"),
           norm=(False, True), denoise=(True, False), invert=(True, False))
add("calibration", cal.binarize_image, one(70, 72), **BIN)
add("calibration", cal.calculate_threshold, one(), bgr=("bright", "dark"))
add("calibration", cal.calculate_distance, two(70, 72),
    size_opt=("max", "mean"), **BIN)
add("calibration", cal.find_tilt_roll, lambda r: (
    60 + 50 * np.cos(np.arange(12) * 0.5) + r.random(12),
    60 + 9 * np.sin(np.arange(12) * 0.5) + r.random(12)),
    method=("ellipse", "linear"))
add("calibration", cal.normalize_background, one(70, 72), size=(51, 9))
add("calibration", cal.normalize_background_based_fft, one(), sigma=(5, 9),
    pad=(None, 7), mode=("reflect", "edge"))


def spots(r):
    m = np.zeros((50, 50))
    for k in range(4):
        for j in range(4):
            n = int(r.integers(2, 6))
            m[4 + 12 * k:4 + 12 * k + n, 4 + 12 * j:4 + 12 * j + n] = 1
    return m


add("calibration", cal.get_dot_size, lambda r: (spots(r),),
    size_opt=("max", "min"))
add("calibration", cal.select_dot_based_size, lambda r: (spots(r), 9),
    ratio=(0.01, 0.8))
add("simulation", sim.add_background_fluctuation, one(),
    strength_ratio=(0.2, 0.5))
add("simulation", sim.add_noise, one(), noise_ratio=(0.1, 0.4))
add("simulation", sim.add_stripe_artifact, lambda r: (img(r, 20, 24), 3, 8),
    strength_ratio=(0.2, 0.5), stripe_type=("partial", "full"))
add("simulation", sim.convert_to_Xray_image, one(), global_max=(None, 300))
add("simulation", sim.make_sinogram, lambda r: (
    img(r, 20, 20), np.linspace(0, 3, 9)), pad_rate=(0.5, 0.2),
    pad_mode=("edge", "reflect"))
add("utility", util.apply_gaussian_filter, lambda r: (img(r, 20, 24), 3, 5),
    pad=(None, 7), mode=(None, "reflect"))
add("utility", util.apply_regularization_filter, lambda r: (
    img(r, 20, 24), 0.01), N1, axis=(1, 0))
add("utility", util.detect_sample, one(), sino_type=("180", "360"))
add("utility", util.generate_fitted_image, lambda r: (img(r, 20, 24), 2),
    axis=(0, 1), num_chunk=(1, 2))
add("utility", util.generate_spiral_positions, lambda r: (
    5.5, 20, 100, 120), spiral_shape=(1.0, 2.0))
add("utility", util.interpolate_inside_stripe, lambda r: (
    img(r, 20, 24), np.float32((np.arange(24) > 8) & (np.arange(24) < 13))),
    kind=("linear", "cubic"))
add("utility", util.make_2d_damping_window, lambda r: (
    20 + int(r.integers(5)), 22, 4), window_name=("gaussian", "butter"))
add("utility", util.mapping, lambda r: (
    img(r, 20, 24), r.uniform(-3, 26, (9, 8)), r.uniform(-3, 22, (9, 8))),
    order=(1, 3), mode=("reflect", "constant"))
add("utility", util.separate_frequency_component, one(), axis=(0, 1),
    window=(None, None))
add("utility", util.sort_forward, one(), axis=(0, 1))
add("utility", util.sort_backward, lambda r: (
    img(r, 12, 12), np.argsort(r.random((12, 12)))), axis=(0, 1))
add("utility", util.transform_1d_window_to_2d, lambda r: (
    r.random(21),), order=(1, 3), mode=("reflect", "constant"))
add("utility", util.apply_wavelet_decomposition, lambda r: (
    img(r, 40, 44), "db2"), level=(None, 1))
add("utility", util.fix_non_sample_areas, lambda r: (
    np.where(r.random((4, 5, 1)) < 0.4, 0.0, r.random((4, 5, 2)) + 5),),
    direction=("horizontal", "vertical"))


# files; IN and OUT in a path are a folder of input and a fresh folder ---------
def folder(r, d):
    """What is in IN: a folder of tifs, and hdf files."""
    a = img(r, 4, 12, 14)
    a[a < 60] = 0
    for k in range(4):
        losa.save_image(d + "/tifs/img_%05d.tif" % k, a[k].astype("f4"))
    for n in range(3):
        with h5py.File(d + "/s%d.hdf" % n, "w") as f:
            b = img(r, 4, 12, 14)
            b[b < 60] = 0
            f["entry/data"] = b.astype("f4")
            f["entry/image_key"] = np.array([0, 1, 2, 0])


FLD = dict(flat_field=(None, np.full((12, 14), 240.0)),
           dark_field=(None, np.full((12, 14), 0.5)))
USE = dict(num_use=(None, 2), fix_zero_div=(True, False))
CROPS = dict(crop=(NO_CROP, (1, 2, 3, 0)))
CROPS3 = dict(crop=(NO_CROP3, (1, 0, 2, 1, 0, 3)))
KEY = "entry/data"
FILES = ["IN/s%d.hdf" % n for n in range(3)]
SCALE = dict(nbit=(16, 8), minmax=(None, (40, 100)), skip=(None, 1))
add("files", losa.get_tif_stack, lambda r: ("IN/tifs",), idx=(None, None),
    **CROPS, **FLD, **USE)
add("files", losa.get_image_stack, lambda r: (1, FILES), {"data_key": KEY},
    average=(False, True), **CROPS, **FLD, **USE)
add("files", losa.get_reference_sample_stacks, lambda r: (
    1, FILES, FILES[::-1], KEY, KEY), **CROPS, **FLD, **USE)
add("files", losa.get_reference_sample_stacks_dls, lambda r: (0, FILES), {
    "data_key": KEY, "image_key": "entry/image_key"}, **CROPS, **FLD, **USE)
add("files", losa.make_folder_name, lambda r: ("OUT",),
    name_prefix=("Output", "run"), zero_prefix=(5, 3))
add("files", losa.save_image_multiple, lambda r: (
    ["OUT/%d.tif" % k for k in range(4)], img(r, 4, 4, 4)), N1, axis=(0, 2),
    overwrite=(True, True), start_idx=(0, 0))
add("files", losa.save_distortion_coefficient, lambda r: (
    "OUT/a.txt", 3.5, 4.5, [1.0, 1e-3]), overwrite=(True, False))
add("files", cvt.convert_tif_to_hdf, lambda r: ("IN/tifs", "OUT/a.hdf"),
    key_path=("entry/data", "k"), pattern=(None, "img"), **CROPS)
add("files", cvt.extract_tif_from_hdf, lambda r: (
    "IN/s0.hdf", "OUT/t", KEY), index=((0, -1, 1), (1, 4, 2)), axis=(0, 1),
    prefix=("img", "proj"), **CROPS)
add("files", post.downsample_dataset, lambda r: (
    img(r, 6, 12, 14), "OUT/t", (2, 3, 2)), {"rescaling": True},
    method=("mean", "max"), key_path=(None, None), overwrite=(False, True),
    **SCALE, **CROPS3)
add("files", post.downsample_dataset, lambda r: (
    img(r, 6, 12, 14), "OUT/t", (2, 3, 2)), rescaling=(False, True))
add("files", post.rescale_dataset, lambda r: (img(r, 6, 12, 14), "OUT/t"),
    nbit=(16, 8), minmax=(None, (40, 100)), skip=(None, 1),
    key_path=(None, None), overwrite=(False, True), **CROPS3)
RESLICE = dict(axis=(1, 2), rotate=(0.0, 8.0), chunk=(16, 5), mode=(
    "constant", "nearest"), overwrite=(False, True), **SCALE, **CROPS3)
add("files", post.reslice_dataset, lambda r: ("IN/s0.hdf", "OUT/t"), {
    "ncore": 1, "show_progress": False, "key_path": KEY}, **RESLICE)
add("files", post.reslice_dataset, lambda r: ("IN/s0.hdf", "OUT/t"), {
    "ncore": 1, "show_progress": False, "key_path": KEY, "rescaling": True},
    **RESLICE)
add("files", post.reslice_dataset, lambda r: ("IN/s0.hdf", "OUT/t"), {
    "ncore": 1, "show_progress": False, "key_path": KEY},
    rescaling=(False, True))
add("files", rec.find_center_visual_slices, lambda r: (
    img(r, 24, 30) / 210, "OUT", 12, 16), {"ncore": 1, "gpu": False},
    step=(1, 2), zoom=(0.5, 1.0), method=("fbp", "dfi"), angles=(None, ANG),
    ratio=(1.0, 0.8), filter_name=("hann", "cosine"),
    apply_log=(True, False), display=(False, False))
add("files", util.find_center_visual_sinograms, lambda r: (
    img(r, 24, 30), "OUT", 12, 16), step=(1, 2), zoom=(1.0, 0.5),
    display=(False, False))
add("files", vr.find_center_visual_vertical_slices, lambda r: (
    projections(r), "OUT", 11, 8, 11), {"ncore": 1, "gpu": False},
    step=(1, 2), alpha=(0.0, 20.0), angles=(None, None), chunk_size=(30, 7),
    ramp_filter=("after", "before"), apply_log=(True, False),
    masking=(True, False))


def contents(d):
    """Names and values of all files, as numbers."""
    out = []
    for base, dirs, names in os.walk(d):
        dirs.sort()
        for n in sorted(names):
            p = os.path.join(base, n)
            out.append(numbers(os.path.relpath(p, d)))
            if n.endswith(".tif"):
                out.append(numbers(losa.load_image(p)))
            elif n.endswith(".hdf"):
                with h5py.File(p) as f:
                    f.visititems(lambda k, v: out.append(np.concatenate([
                        numbers(k), numbers(v[()])])) if isinstance(
                            v, h5py.Dataset) else None)
            else:
                out.append(numbers(open(p).read()))
    return out


def numbers(x):
    """Everything in a result, as numbers."""
    if isinstance(x, str):
        return np.frombuffer(x.encode(), np.uint8).astype(float)
    if x is None:
        return np.zeros(0)
    if isinstance(x, (tuple, list, dict)):
        x = [x[k] for k in sorted(x)] if isinstance(x, dict) else x
        return np.concatenate([numbers(i) for i in x] + [np.zeros(0)])
    return flatten(x)


def copied(x, where=None):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (tuple, list)):
        return type(x)(copied(a, where) for a in x)
    if isinstance(x, str) and where and x[:2] == "IN":
        return where[0] + x[2:]
    if isinstance(x, str) and where and x[:3] == "OUT":
        return where[1] + x[3:]
    return x


def outcome(ctx, func, args, kw, given=None):
    where = None
    if given:
        where = given, ctx.tmpdir() + "/o"
        os.mkdir(where[1])
    np.random.seed(7)
    try:
        args = copied(args, where)
        kw = {k: copied(v, where) for k, v in kw.items()}
        res = func(*args, **kw)
        if where and "overwrite" in ORDER.get("%s.%s" % (
                func.__module__.split(".")[-1], func.__name__), ()):
            res = func(*args, **kw)         # over what is there now
        if where and isinstance(res, (str, os.PathLike)):
            res = os.path.relpath(res, where[1])
        return np.concatenate([numbers(res)] + (contents(
            where[1]) if where else [])), None
    except ValueError as e:
        return np.zeros(0), str(e)


def inputs(ctx, group, seed):
    """The folder IN."""
    if group != "files":
        return None
    d = ctx.tmpdir()
    folder(rng(seed, 308), d)
    return d


def body(ctx, group, i, seed, pick_other):
    rows = TABLE[group]
    func, gen, opts, fixed = rows[i % len(rows)]
    src = inputs(ctx, group, seed)
    name = func.__name__
    args = gen(rng(seed, 305))
    r = rng(pick_other, 306)
    others = {k: v[1] for k, v in opts.items() if r.random() < 0.4} \
        if pick_other % 2 else {}
    rest = {k: v[0] for k, v in opts.items() if k not in others}
    exp, bad = outcome(ctx, func, args, {**fixed, **others, **rest}, src)
    got, bad2 = outcome(ctx, func, args, {**fixed, **others}, src)
    ctx.true((bad is None) == (bad2 is None), lambda: "%s%s: refused (%s) "
             "or not when %s are left out" % (
                 name, sorted(others), bad or bad2, sorted(rest)))
    ctx.same(got, exp, "%s with %s: options left out, and with "
             "their documented values" % (name, sorted(others)))
    # left out one at a time
    key = sorted(rest)[pick_other % len(rest)] if rest else None
    if key is not None:
        kw = {**fixed, **others, **rest}
        del kw[key]
        got, bad2 = outcome(ctx, func, args, kw, src)
        ctx.same(got, exp, "%s: %s left out" % (name, key))
    ctx.label(name)
    ctx.nontrivial(bad is None)


def by_position(ctx, group, i, seed, pick_other):
    rows = TABLE[group]
    func, gen, opts, fixed = rows[i % len(rows)]
    src = inputs(ctx, group, seed)
    args = gen(rng(seed, 305))
    r = rng(pick_other, 307)
    vals = {k: v[int(r.random() < 0.5)] for k, v in opts.items()}
    # positional as long as the documented order has no gap
    order = ORDER[func.__module__.split(".")[-1] + "." + func.__name__]
    front = []
    allv = {**fixed, **vals}
    for k in order[len(args):]:
        if k not in allv:
            break
        front.append(allv.pop(k))
    exp, bad = outcome(ctx, func, args, {**fixed, **vals}, src)
    got, bad2 = outcome(ctx, func, tuple(args) + tuple(front), allv, src)
    ctx.true((bad is None) == (bad2 is None), lambda: "%s: refused (%s) or "
             "not when given by position" % (func.__name__, bad or bad2))
    ctx.same(got, exp, "%s: options by position and by name" %
             func.__name__)
    # and the arguments by name
    kw = dict(zip(order, args))
    got, bad2 = outcome(ctx, func, (), {**kw, **fixed, **vals}, src)
    ctx.same(got, exp, "%s: arguments by position and by name" %
             func.__name__)
    ctx.label(func.__name__)
    ctx.nontrivial(bad is None and len(front) > 0)


def read_order():
    path = os.path.join(os.path.dirname(__file__), "C48.txt")
    out = {}
    for line in open(path):
        name, args = line.split(":")
        out[name.strip()] = args.split()
    return out


ORDER = read_order()


def declare(group, rows, which, f):
    def g(ctx, i, seed, pick_other):
        f(ctx, group, i, seed, pick_other)
    g.__name__ = group + which
    g.__module__ = __name__
    g.__doc__ = f.__doc__ or "%s: %s." % (
        "Left out or given as documented" if not which else
        "By name or by position", ", ".join(
            r[0].__name__ for r in rows))
    check(quick=(8 if not which else 3) * len(rows), thorough=60 * len(rows),
          cost=6, i=I(0, len(rows) - 1), seed=SEED,
          pick_other=I(0, 10 ** 6))(g)


for nm in sorted(TABLE):
    declare(nm, TABLE[nm], "", body)
    declare(nm, TABLE[nm], "_order", by_position)
