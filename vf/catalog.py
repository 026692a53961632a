"""A call to each function that takes arrays, on small inputs.

entry(size) functions give (arrays, call): call(*arrays) is the result. A
third item, if any, lists further arrays the call hands over as they are
(masks, coordinates, weights), which it must leave alone too. The
values of the arrays are whole numbers between 1 and 200, so that the same
numbers can be given as any type, scaled by `scale` where the function wants
other magnitudes (then ints is False).
"""
import numpy as np

import algotom.io.loadersaver  # noqa: F401
import algotom.post.postprocessing as post
import algotom.prep.calculation as calc
import algotom.prep.conversion as conv
import algotom.prep.correction as corr
import algotom.prep.filtering as filt
import algotom.prep.phase as ps
import algotom.prep.removal as remo
import algotom.rec.reconstruction as rec
import algotom.rec.vertrec as vr
import algotom.util.calibration as cal
import algotom.util.correlation as corl
import algotom.util.simulation as sim
import algotom.util.utility as util

CALLS = {}


def entry(group):
    def deco(f):
        CALLS[f.__name__] = (group, f)
        return f
    return deco


def img(r, *shape):
    """Whole numbers from 1 to 200, neither flat nor all noise."""
    from scipy.ndimage import gaussian_filter
    a = gaussian_filter(r.random(shape), [0] * (len(shape) - 2) + [1.5, 1.5])
    a = (a - a.min()) / max(1e-9, np.ptp(a))
    return np.clip(np.round(20 + 150 * a + 20 * r.random(shape)), 1, 200)


def simple(name, group, func, dims=2, **kw):
    def f(r, h, w):
        shape = (h, w) if dims == 2 else (5, h, w)
        return [img(r, *shape)], lambda a: func(a, **kw)
    CALLS[name] = (group, f)


# one image in, image out -----------------------------------------------------
for nm, kw in dict(
        remove_stripe_based_sorting=dict(size=5),
        remove_stripe_based_filtering=dict(sigma=2, size=5),
        remove_stripe_based_fitting=dict(order=1, sigma=3),
        remove_large_stripe=dict(size=7),
        remove_dead_stripe=dict(size=7),
        remove_all_stripe=dict(la_size=7, sm_size=5),
        remove_stripe_based_2d_filtering_sorting=dict(size=5),
        remove_stripe_based_normalization=dict(sigma=4),
        remove_stripe_based_regularization=dict(),
        remove_stripe_based_fft=dict(u=5, v=1),
        remove_stripe_based_wavelet_fft=dict(level=1, wavelet_name="db2"),
        remove_stripe_based_interpolation=dict(size=7),
        remove_zinger=dict(threshold=0.05),
        ).items():
    simple(nm, "removal", getattr(remo, nm), **kw)
simple("fresnel_filter", "filtering", filt.fresnel_filter, ratio=10, pad=6)
simple("fresnel_filter_2d", "filtering", filt.fresnel_filter, ratio=10,
       dim=2, pad=6)
simple("get_quality_map", "phase", ps.get_quality_map, size=5)
simple("normalize_background", "calibration", cal.normalize_background,
       size=5)
simple("normalize_background_based_fft", "calibration",
       cal.normalize_background_based_fft, sigma=3, pad=4)
simple("invert_dot_contrast", "calibration", cal.invert_dot_contrast)
simple("calculate_threshold", "calibration", cal.calculate_threshold)
simple("binarize_image", "calibration", cal.binarize_image, threshold=100)
simple("normalize_image", "correlation", corl.normalize_image)
simple("normalize_stack", "correlation", corl.normalize_image, dims=3)
simple("downsample", "post", post.downsample, cell_size=2)
simple("downsample_median", "post", post.downsample, cell_size=(3, 2),
       method="median")
simple("rescale", "post", post.rescale, nbit=8, minmax=(10, 150))
simple("get_statistical_information", "post",
       post.get_statistical_information, percentile=(5, 95))
simple("denoised_statistics", "post", post.get_statistical_information,
       denoise=True)
simple("separate_frequency_component", "utility",
       util.separate_frequency_component)
simple("generate_fitted_image", "utility", util.generate_fitted_image,
       order=2)
simple("apply_gaussian_filter", "utility", util.apply_gaussian_filter,
       sigma_x=2, sigma_y=3, pad=4)
simple("apply_regularization_filter", "utility",
       util.apply_regularization_filter, alpha=0.1, ncore=1)
simple("sort_forward", "utility", util.sort_forward)
simple("apply_ramp_filter", "rec", rec.apply_ramp_filter, filter_name="hann")
simple("convert_to_Xray_image", "simulation", sim.convert_to_Xray_image)
simple("add_stripe_artifact", "simulation", sim.add_stripe_artifact, size=2,
       position=4)
simple("complex_gradient", "calculation", calc.complex_gradient)
simple("double_wedge_filter", "filtering", filt.double_wedge_filter,
       center=6.3, iteration=2, pad=8)
simple("mtf_pad", "correction", lambda a: corr.mtf_deconvolution(
    a, np.ones((a.shape[0] + 8, a.shape[1] + 8)), 4))
simple("beam_hardening", "correction", lambda a: corr.
       beam_hardening_correction(a / 256.0, 0.5, 3))
simple("unwarp_projection", "correction", lambda a: corr.unwarp_projection(
    a, a.shape[1] / 2 + 0.3, a.shape[0] / 2 - 0.2, [1.0, 1e-3]))
simple("convert_360", "conversion", lambda a:
       conv.convert_sinogram_360_to_180(a, a.shape[1] * 0.4))
simple("extend_sinogram", "conversion", lambda a: conv.extend_sinogram(
    a, a.shape[1] * 0.4))
simple("convert_180", "conversion", lambda a:
       conv.convert_sinogram_180_to_360(a, a.shape[1] * 0.5))
simple("upsample_sinogram", "correction", lambda a: corr.upsample_sinogram(
    a, 2, center=a.shape[1] / 2 - 0.5, pad=6))
simple("locate_peak", "correlation", corl.locate_peak)
simple("find_center_vo", "calculation", lambda a: calc.find_center_vo(
    a, ncore=1, radius=2, dsp=False))
simple("get_weight_mask", "phase", lambda a: ps.get_weight_mask(a))
simple("detect_sample", "utility", util.detect_sample)
simple("wavelets", "utility", lambda a: util.apply_wavelet_reconstruction(
    util.apply_wavelet_decomposition(a, "db2", 1), "db2"))
simple("dfi", "rec", lambda a: rec.dfi_reconstruction(
    a, a.shape[1] / 2 - 0.3, apply_log=False, ncore=1))
simple("dfi_stack", "rec", lambda a: rec.dfi_reconstruction(
    np.moveaxis(a, 0, 1), a.shape[2] / 2 - 0.3, apply_log=False, ncore=1),
    dims=3)
simple("generate_tilted_line", "correction", lambda a:
       corr.generate_tilted_profile_line(a, a.shape[0] // 2, 3.0))
simple("generate_tilted_chunk", "correction", lambda a:
       corr.generate_tilted_profile_chunk(a, a.shape[0] // 2,
                                          a.shape[0] // 2 + 2, 3.0))
simple("tilted_sinogram", "correction", lambda a:
       corr.generate_tilted_sinogram(a, a.shape[1] // 2, 3.0), dims=3)
simple("unwarp_sinogram", "correction", lambda a: corr.unwarp_sinogram(
    a, a.shape[1] // 2, a.shape[2] / 2, a.shape[1] / 2, [1.0, 1e-3]), dims=3)
simple("unwarp_chunk", "correction", lambda a: corr.unwarp_sinogram_chunk(
    a, 1, 3, a.shape[2] / 2, a.shape[1] / 2, [1.0, 1e-3]), dims=3)


def sized(*names, h=33, w=38):
    """Calls that need a larger image."""
    for nm in names:
        g, f = CALLS[nm]

        def f1(r, h0, w0, f=f):
            return f(r, h + h0 % 4, w + w0 % 4)
        CALLS[nm] = (g, f1)


sized("wavelets", "remove_stripe_based_wavelet_fft")


def square(name, group, func, **kw):
    def f(r, h, w):
        return [img(r, w, w)], lambda a: func(a, **kw)
    CALLS[name] = (group, f)


square("remove_ring_based_fft", "post", post.remove_ring_based_fft, u=4, v=1)
square("remove_ring_based_wavelet_fft", "post",
       post.remove_ring_based_wavelet_fft, level=1, wavelet_name="db2")
sized("remove_ring_based_wavelet_fft")
square("transform_slice_forward", "utility", util.transform_slice_forward)
square("transform_slice_backward", "utility", util.transform_slice_backward)
square("circular_ramp", "rec", rec.apply_circular_ramp_filter,
       filter_name="hann")
square("make_sinogram", "simulation", sim.make_sinogram,
       angles=np.linspace(0, np.pi, 5))


def counts(r, h, w, n):
    """Projections, flat and dark: with projections below the dark and, in
    half of the cases, pixels that do not respond."""
    p = img(r, n, h, w)
    d = np.floor(img(r, h, w) / 8)
    f = img(r, h, w) + 50
    p[r.random((n, h, w)) < 0.1] = 1
    if r.random() < 0.5:
        bad = r.random((h, w)) < 0.05
        f[bad] = d[bad]
    return [p, f, d]


# several arrays --------------------------------------------------------------
@entry("correction")
def flat_field(r, h, w):
    return counts(r, h, w, 5), corr.flat_field_correction


@entry("correction")
def flat_field_one(r, h, w):
    p, f, d = counts(r, h, w, 5)
    return [p[0], f, d], corr.flat_field_correction


@entry("correction")
def flat_field_no_dark(r, h, w):
    p, f, d = counts(r, h, w, 5)
    f[r.random((h, w)) < 0.04] = 0
    return [p, f, d], lambda a, b, c: corr.flat_field_correction(
        a, b, c, use_dark=False)


@entry("correction")
def unwarp_coefficients(r, h, w):
    k = np.array([1.0, 2e-3, 1e-6])
    return [img(r, h, w)], lambda a: corr.unwarp_projection(
        a, w / 2.0, h / 2.0, k), [k]


@entry("conversion")
def stitch(r, h, w):
    k = r.integers(3, w - 2) + r.random() * (r.random() < 0.5)
    s = int(r.integers(0, 2))
    return [img(r, h, w), img(r, h, w)], lambda a, b: conv.stitch_image(
        a, b, k, s)


@entry("conversion")
def join(r, h, w):
    k = 2.5
    s = int(r.integers(0, 2))
    return [img(r, h, w), img(r, h, w)], lambda a, b: conv.join_image(
        a, b, k, s)


@entry("conversion")
def stitch_many(r, h, w):
    return [img(r, h, w) for _ in range(3)], lambda *a: \
        conv.stitch_image_multiple(list(a), [[5.5, 1], [4, 1]])


@entry("conversion")
def weights(r, h, w):
    return [img(r, h, w), img(r, h, w)], lambda a, b: conv.make_weight_matrix(
        a, b, 5, 1)


@entry("calculation")
def overlap(r, h, w):
    big = img(r, h, 2 * w)
    return [big[:, :w + 4], big[:, w - 4:]], lambda a, b: calc.find_overlap(
        a, b, 5, side=1, denoise=False, ncore=1)


@entry("calculation")
def phase_shift(r, h, w):
    a = img(r, h, w)
    return [a, np.roll(a, 2, 1)], lambda a, b: \
        calc.find_shift_based_phase_correlation(a, b)


@entry("calculation")
def metric(r, h, w):
    return [img(r, h, w), img(r, h, w)], calc.correlation_metric


@entry("removal")
def blob(r, h, w):
    m = r.random((h, w)) < 0.1
    return [img(r, h, w)], lambda a: remo.remove_blob(a, m), [m]


@entry("removal")
def blob_mask(r, h, w):
    a = img(r, h, w)
    a[r.random((h, w)) < 0.05] = 1
    return [a], lambda a: remo.generate_blob_mask(a, 5, 2.0)


@entry("utility")
def stripe_inside(r, h, w):
    m = np.zeros(w)
    m[3:5] = 1
    m[r.random(w) < 0.15] = 1
    m[r.random(w) < 0.3] *= r.integers(1, 3)
    m[w // 2:w // 2 + 2] = 0
    m[int(r.integers(0, 2))] = m[w - 1 - int(r.integers(0, 2))] = 1
    kind = ("linear", "linear", "cubic")[int(r.integers(0, 3))]
    return [img(r, h, w)], lambda a: util.interpolate_inside_stripe(
        a, m, kind), [m]


@entry("correction")
def windowed_filter(r, h, w):
    k = r.random((h + 8, w + 8))
    return [img(r, h, w)], lambda a: corr.mtf_deconvolution(a, k + 0.5, 4), \
        [k]


@entry("utility")
def sort_back(r, h, w):
    a = img(r, h, w)
    s, idx = util.sort_forward(a, axis=0)
    return [a], lambda b: util.sort_backward(b, idx, axis=0), [idx]


@entry("utility")
def regularizer(r, h, w):
    s = util.calculate_regularization_coefficient(w, 0.1)
    return [img(r, 1, w)[0]], lambda a: util.apply_1d_regularizer(
        a, s), [s]


@entry("utility")
def mapped(r, h, w):
    x = r.random((h, w)) * (w - 1)
    y = r.random((h, w)) * (h - 1)
    return [img(r, h, w)], lambda a: util.mapping(a, x, y), [x, y]


@entry("utility")
def mapped_rows(r, h, w):
    x = np.clip(np.arange(w) + r.random((h, w)) - 0.5, 0, w - 1)
    y = np.clip(np.arange(h)[:, None] + r.random((h, w)) - 0.5, 0, h - 1)
    return [img(r, h, w)], lambda a: util.mapping(
        a, x, y, order=3, mode="nearest"), [x, y]


@entry("phase")
def fc(r, h, w):
    return [img(r, h, w), img(r, h, w)], \
        lambda a, b: ps.reconstruct_surface_from_gradient_FC_method(a, b)


@entry("phase")
def scs(r, h, w):
    return [img(r, h, w), img(r, h, w)], \
        lambda a, b: ps.reconstruct_surface_from_gradient_SCS_method(
            a, b, pad=2)


@entry("phase")
def unwrap_dct(r, h, w):
    return [img(r, h, w)], ps.unwrap_phase_based_cosine_transform


@entry("phase")
def unwrap_fft(r, h, w):
    return [img(r, h, w)], ps.unwrap_phase_based_fft


@entry("phase")
def unwrap_it(r, h, w):
    return [img(r, h, w)], lambda a: ps.unwrap_phase_iterative_fft(a, 2)


@entry("phase")
def align(r, h, w):
    s = np.round(4 * r.random((3, 2)) - 2, 2)
    return [img(r, 3, h, w), img(r, 3, h, w)], lambda a, b: \
        ps.align_image_stacks(a, b, s), [s]


@entry("phase")
def transmission(r, h, w):
    ref, sam = img(r, 3, 16, 17), img(r, 3, 16, 17)
    x, y = r.random((2, 16, 17)) * 2 - 1
    return [ref, sam], lambda a, b: ps.get_transmission_dark_field_signal(
        a, b, x, y, 3, ncore=1), [x, y]


@entry("correlation")
def corr_map(r, h, w):
    a = img(r, h, w)
    return [a, a[2:-2, 2:-2]], corl.generate_correlation_map


@entry("correlation")
def corr_map_stack(r, h, w):
    a = img(r, 3, h, w)
    return [a, a[:, 2:-2, 2:-2]], corl.generate_correlation_map


@entry("correlation")
def local_shifts(r, h, w):
    return [img(r, 14, 15), img(r, 14, 15)], lambda a, b: \
        corl.find_local_shifts(a, b, win_size=5, margin=3, ncore=1)


@entry("correlation")
def local_shifts_1d(r, h, w):
    return [img(r, 3, 14, 15), img(r, 3, 14, 15)], lambda a, b: \
        corl.find_local_shifts(a, b, dim=1, win_size=5, margin=3, ncore=1)


@entry("correlation")
def local_shifts_2d(r, h, w):
    return [img(r, 3, 14, 15), img(r, 3, 14, 15)], lambda a, b: \
        corl.find_local_shifts(a, b, dim=2, win_size=5, margin=3, ncore=1,
                               norm=False)


@entry("correlation")
def umpa(r, h, w):
    return [img(r, 3, 14, 15), img(r, 3, 14, 15)], lambda a, b: \
        corl.find_local_shifts_umpa(a, b, win_size=5, margin=3, ncore=1,
                                    gpu=False, dark_signal=True)


@entry("rec")
def fbp(r, h, w):
    return [img(r, h, w)], lambda a: rec.fbp_reconstruction(
        a, w / 2 - 0.3, gpu=False)


@entry("rec")
def bpf(r, h, w):
    return [img(r, h, w)], lambda a: rec.bpf_reconstruction(
        a, w / 2 - 0.3, gpu=False)


@entry("rec")
def fbp_stack(r, h, w):
    return [img(r, h, 3, w)], lambda a: rec.fbp_reconstruction(
        a, w / 2 - 0.3, gpu=False)


@entry("rec")
def back_projection(r, h, w):
    ang = np.float32(np.linspace(0, np.pi, h))
    return [img(r, h, w)], lambda a: rec.back_projection_cpu(
        a, ang, np.float32(w / 2 - 0.3)), [ang]


@entry("rec")
def fbp_angles(r, h, w):
    ang = np.sort(r.random(h)) * np.pi
    return [img(r, h, w)], lambda a: rec.fbp_reconstruction(
        a, w / 2 - 0.3, angles=ang, gpu=False), [ang]


@entry("rec")
def bpf_angles(r, h, w):
    ang = np.sort(r.random(h)) * np.pi
    return [img(r, h, w)], lambda a: rec.bpf_reconstruction(
        a, w / 2 - 0.3, angles=ang, gpu=False), [ang]


@entry("rec")
def dfi_angles(r, h, w):
    ang = np.linspace(0, np.pi, h) + r.random()
    if r.random() < 0.5:
        ang = ang[::-1].copy()
    return [img(r, h, w)], lambda a: rec.dfi_reconstruction(
        a, w / 2 - 0.3, angles=ang, apply_log=False), [ang]


@entry("vertrec")
def vertical(r, h, w):
    return [img(r, 6, h, w), img(r, h, w) + 50,
            np.floor(img(r, h, w) / 8)], lambda a, b, c: \
        vr.vertical_reconstruction(a, w // 2, w / 2 - 0.3, 30.0,
                                   flat_field=b, dark_field=c, gpu=False,
                                   show_progress=False)


@entry("vertrec")
def vertical_many(r, h, w):
    return [img(r, 6, h, w), img(r, h, w) + 50,
            np.floor(img(r, h, w) / 8)], lambda a, b, c: \
        vr.vertical_reconstruction_multiple(
            a, 1, 3, w / 2 - 0.3, 30.0, flat_field=b, dark_field=c,
            gpu=False, show_progress=False)


@entry("calibration")
def dots(r, h, w):
    m = np.zeros((h, w))
    for _ in range(3):
        i, j = r.integers(2, h - 2), r.integers(2, w - 2)
        m[i - 1:i + 2, j - 1:j + 2] = 1
    return [m], lambda a: (cal.get_dot_size(a), cal.select_dot_based_size(
        a, cal.get_dot_size(a), 0.3))


@entry("calibration")
def ellipse(r, h, w):
    t = np.arange(9) * 0.7
    x = np.round(60 + 50 * np.cos(t))
    y = np.round(60 + 12 * np.sin(t) + 0.2 * x)
    return [x, y], lambda a, b: (cal.fit_points_to_ellipse(a, b),
                                 cal.find_tilt_roll(a, b))


def flatten(x):
    """All numbers of a result."""
    if isinstance(x, dict):
        x = [x[k] for k in sorted(x)]
    if isinstance(x, (tuple, list)):
        parts = [flatten(i) for i in x]
        return np.concatenate(parts) if parts else np.zeros(0)
    x = np.asarray(x)
    return x.astype(complex if x.dtype.kind == "c" else float).ravel()
