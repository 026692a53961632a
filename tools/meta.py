"""What each property says; gen.py writes properties.jsonl and MANIFEST.json
from it."""
LS = "algotom/io/loadersaver.py"
CV = "algotom/io/converter.py"
PP = "algotom/post/postprocessing.py"
CA = "algotom/prep/calculation.py"
CN = "algotom/prep/conversion.py"
CO = "algotom/prep/correction.py"
FI = "algotom/prep/filtering.py"
PH = "algotom/prep/phase.py"
RM = "algotom/prep/removal.py"
RE = "algotom/rec/reconstruction.py"
VR = "algotom/rec/vertrec.py"
CB = "algotom/util/calibration.py"
CR = "algotom/util/correlation.py"
SI = "algotom/util/simulation.py"
UT = "algotom/util/utility.py"

P = {}


def prop(pid, title, statement, over, text, tests, mech, technique, note=""):
    """mech: list of (name, file:function)."""
    files = []
    for _, where in mech:
        f = where.split(":")[0]
        if f not in files:
            files.append(f)
    P[pid] = {
        "record": {
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": tests,
            "anchors": {"files": files, "mechanism": [
                {"name": n, "where": w} for n, w in mech]}},
        "technique": technique, "note": note}


INP = ["inputs"]
CFG = ["inputs", "configurations"]
HIS = ["inputs", "histories"]

prop("C01", "Saved images load back unchanged",
     "Any 2D array saved as a tif file, into existing or new folders, is read "
     "back with the same values; other lossless formats hold the image "
     "rescaled to eight bits in the same grey order, and a colour image loads "
     "as the mean of its channels. A stack saved in parallel along any axis "
     "gives one file per slice, numbered in slice order, and loads back in "
     "that order with any number of workers; files are listed in the order "
     "of their names. A request that cannot be met is refused before "
     "anything is written.",
     HIS, "all images (shape, type, contents), formats, folder layouts, "
     "axes, start numbers and worker counts",
     "The tests save one random array per format and check that files exist.",
     [("image reading/writing", LS + ":load_image, save_image"),
      ("parallel stacks", LS + ":save_image_multiple, load_image_multiple")],
     "property-based round-trip testing (Hypothesis)")
prop("C02", "Existing data is never overwritten unless asked",
     "With overwriting off, saving or processing never changes or removes a "
     "file or folder that was there before: a new name is made, or the "
     "request is refused. With overwriting on, only the named target is "
     "replaced. Source data and unrelated files around the target survive in "
     "every case.",
     HIS, "all sequences of saves and dataset operations over colliding "
     "names, and all prior contents of the folder",
     "The tests write into fresh folders; none saves twice to one name among "
     "other files and compares every byte.",
     [("new names", LS + ":make_file_name, make_folder_name, save_image"),
      ("targets of dataset tools", PP + ":downsample_dataset, "
       "rescale_dataset, reslice_dataset")],
     "stateful property-based testing against a file-map model")
prop("C03", "HDF streams round-trip and HDF listings are complete",
     "A stream opened for writing makes a dataset of the requested shape and "
     "type, with the extra metadata given, whose slices read back exactly "
     "whatever the order they were written in. Listings of a file name every "
     "dataset with its true shape and type and nothing not in the file, and a "
     "search by keyword gives exactly the matching ones. The tree drawing "
     "shows every node once, in order.",
     HIS, "all group/dataset trees, names, shapes, types, write orders and "
     "search patterns",
     "The tests use one or two hand-made files with a couple of keys.",
     [("stream", LS + ":open_hdf_stream, load_hdf"),
      ("listing", LS + ":get_hdf_information, find_hdf_key, get_hdf_tree")],
     "property-based testing against an in-memory tree model")
prop("C04", "Conversion between tif folders and HDF keeps every slice",
     "Converting a folder of tif files to HDF, or extracting tif files from "
     "HDF along any axis, keeps exactly the requested slices in order with "
     "unchanged values inside the requested crop. A folder opened as an "
     "emulated HDF dataset answers shape, type, length and indexing exactly "
     "like the stack of its images. Converting there and back is the "
     "identity.",
     CFG, "all stack shapes, types, crops, axes, index selections and file "
     "name patterns",
     "The tests convert one stack with one crop and compare shapes.",
     [("conversion", CV + ":convert_tif_to_hdf, extract_tif_from_hdf"),
      ("emulator", CV + ":HdfEmulatorFromTif")],
     "property-based round-trip and differential testing against numpy")
prop("C05", "Assembled image stacks hold the right corrected frames",
     "Image, reference and sample stacks assembled from several tif or HDF "
     "datasets hold the requested frame of each dataset - chosen by index or "
     "by its image key, wherever the flats and darks lie - cropped and "
     "corrected with the averages of the frames marked as such. Unsigned "
     "data never wraps around in the correction.",
     CFG, "all dataset types, layouts of image keys, indices, crops and "
     "correction options",
     "The tests use one layout with floating-point data.",
     [("stacks", LS + ":get_tif_stack, get_image_stack, "
       "get_reference_sample_stacks, get_reference_sample_stacks_dls")],
     "property-based testing against a reference assembly")
prop("C06", "Parallel processing gives the result of serial processing",
     "Applying a method to every slice of a volume along an axis gives the "
     "stack of the method applied to each slice in turn, whatever the number "
     "of workers, the order in which they finish and the type of container. "
     "Every function that takes a number of cores returns the same for any "
     "number.",
     ["inputs", "schedules", "configurations"],
     "all volumes, axes, methods, worker counts and completion orders "
     "(randomised delays)",
     "The tests run one volume with the default number of workers and check "
     "the shape.",
     [("slice-wise processing", UT + ":apply_method_to_multiple_sinograms, "
       "parallel_process_slices"),
      ("threaded loops", CA + ":search_overlap, coarse_search_cor")],
     "differential property-based testing over worker counts and schedules",
     "Thread schedules are perturbed with random delays, not enumerated.")
prop("C07", "Image decompositions invert, and basic filters match their model",
     "Sorting, frequency and wavelet decompositions put back together give "
     "the original image, and changing one part changes only that part. "
     "Fourier Gaussian, polynomial-fit and regularisation filters and window "
     "functions equal their closed-form definition at every pixel.",
     CFG, "all image shapes including odd and tiny ones, axes, levels, "
     "wavelets, window parameters and paddings",
     "The tests check one square image and its shape.",
     [("sorting", UT + ":sort_forward, sort_backward"),
      ("frequencies", UT + ":separate_frequency_component"),
      ("wavelets", UT + ":apply_wavelet_decomposition, "
       "apply_wavelet_reconstruction, apply_filter_to_wavelet_component")],
     "property-based round-trip and reference-model testing")
prop("C08", "Coordinate mapping and polar transforms follow their geometry",
     "Mapping samples the input at exactly the requested coordinates; polar "
     "grids, circle masks, radial windows and spiral positions follow their "
     "geometry at every pixel. Going to polar coordinates and back "
     "reproduces a smooth image inside the circle, and rings become "
     "stripes.",
     CFG, "all image sizes, coordinate grids, radii, interpolation orders "
     "and boundary modes",
     "The tests transform one image and compare a mean value.",
     [("mapping", UT + ":mapping, rectangular_from_polar, "
       "polar_from_rectangular, transform_slice_forward/backward"),
      ("shapes", UT + ":make_circle_mask, generate_spiral_positions")],
     "property-based testing against naive resampling and geometry")
prop("C09", "Slices of a grid scan are located in the right rows",
     "Every slice of the whole volume is found in the right row(s) of the "
     "scan grid at the right row of the images, with blending weights that "
     "add up to one, and slices outside are found nowhere; locating a range "
     "agrees with locating its slices one by one. Missing overlaps are "
     "copied from an adjacent cell and known ones never change.",
     CFG, "all slice numbers, heights, numbers of grid rows, overlap values "
     "and directions",
     "The tests locate three hand-picked slices.",
     [("location", UT + ":locate_slice, locate_slice_chunk"),
      ("completion", UT + ":fix_non_sample_areas")],
     "property-based testing against a brute-force grid model")
prop("C10", "Stripes are detected and bridged without touching other columns",
     "Values far outside the spread of the middle half of a profile are "
     "flagged and nothing else, independent of order, offset and gain. "
     "Interpolation replaces only flagged columns, exactly so for linear "
     "data. Whether a sinogram shows a sample does not depend on its gain.",
     INP, "all profiles, ratios, masks, interpolation orders and sinograms",
     "The tests use one profile with one spike.",
     [("detection", UT + ":detect_stripe"),
      ("interpolation", UT + ":interpolate_inside_stripe"),
      ("sample", UT + ":detect_sample")],
     "property-based testing against reference models, metamorphic relations")
prop("C11", "Flat-field correction gives the transmission",
     "Correction computes (projection - dark)/(flat - dark) for every pixel "
     "and row, with given scale factor, replaces zero denominators by their "
     "mean, and leaves inputs untouched. Projections simulated from a known "
     "transmission give it back, and correcting a stack equals correcting "
     "its sinograms. Requested filters act on the corrected data in the "
     "order given.",
     CFG, "all shapes, detector types, flats, darks, ratios and filter "
     "lists",
     "The tests correct one stack of constants.",
     [("correction", CO + ":flat_field_correction"),
      ("filters", CO + ":generate_tilted_sinogram")],
     "property-based testing: reference model and round-trip")
prop("C12", "Distortion correction agrees between projections and sinograms",
     "Every corrected pixel is the input sampled at the point the radial "
     "polynomial about the distortion centre sends it to. Correcting one "
     "sinogram, a chunk of sinograms up to the last row, or whole "
     "projections gives the same rows, for arrays and HDF datasets. An image "
     "warped by the exact inverse model is restored.",
     CFG, "all image sizes, centres, coefficients, row ranges and "
     "projection selections",
     "The tests correct one image with one coefficient set.",
     [("unwarping", CO + ":unwarp_projection, unwarp_sinogram, "
       "unwarp_sinogram_chunk")],
     "differential property-based testing between the three paths")
prop("C13", "Tilted sinograms sample every projection along the tilted line",
     "A tilted sinogram or profile holds each projection sampled along the "
     "line through the given row turned about the image centre; a chunk "
     "holds all rows from the first to the last asked for; a zero angle "
     "gives the plain rows. Along a line on which an image does not change "
     "the profile is constant.",
     CFG, "all volumes, rows, angles and ranges",
     "The tests use one angle and compare means.",
     [("tilt", CO + ":generate_tilted_sinogram, "
       "generate_tilted_sinogram_chunk, "
       "generate_tilted_profile_line, generate_tilted_profile_chunk")],
     "property-based testing against a bilinear reference")
prop("C14", "Deconvolution, beam-hardening and angular upsampling obey laws",
     "Deconvolving restores an image blurred by the window and a unit window "
     "changes nothing. The beam-hardening response keeps zero and one, never "
     "decreases, and bends to the side asked for. Upsampling a sinogram adds "
     "rows between the measured ones, following the interleaving and "
     "double-wedge filter definition.",
     CFG, "all windows, paddings, images, response parameters, sinograms "
     "and scales",
     "The tests check shapes and one mean value.",
     [("deconvolution", CO + ":mtf_deconvolution"),
      ("response", CO + ":beam_hardening_correction"),
      ("upsampling", CO + ":upsample_sinogram")],
     "property-based testing: inverse, reference model, metamorphic")
prop("C15", "The centre of rotation is found",
     "For the half-turn sinogram of an object inside the field of view the "
     "axis is found to within a pixel or so, with any search range holding "
     "it and any number of cores; the coarse and fine search return the "
     "position with the least double-wedge energy. Two projections half a "
     "turn apart give the axis to half a pixel by overlap matching (up to "
     "an overlap as wide as the image) or phase correlation.",
     CFG, "all objects, axis positions, sinogram sizes, search ranges and "
     "options",
     "The tests use one phantom with the default options.",
     [("sinogram", CA + ":find_center_vo, coarse_search_cor, "
       "fine_search_cor"),
      ("projections", CA + ":find_center_projection, "
       "find_center_based_phase_correlation")],
     "property-based testing: naive reference search and known ground truth")
prop("C16", "Overlaps of images are found on the right side",
     "The badness reported for every window position is one minus the "
     "Pearson coefficient, relative to the best; for two images of one "
     "scene the overlap is found to half a pixel on the right side, told or "
     "not, whatever the brightness ratio. The axis, overlap, side and window "
     "position reported for a full-turn sinogram agree with the truth and "
     "one another.",
     CFG, "all images, widths, overlaps, sides, windows and options",
     "The tests use one constructed pair and one phantom.",
     [("search", CA + ":search_overlap, calculate_curvature"),
      ("overlap", CA + ":find_overlap, find_overlap_multiple, "
       "find_center_360")],
     "property-based testing: naive reference search and known ground truth")
prop("C17", "The reconstructable range of a helical scan is right",
     "The range of heights that can be reconstructed loses half a pitch for "
     "a half-turn scan and a whole pitch for a full-turn scan at each end, "
     "and the largest index is the last whole pixel step inside it. Moving "
     "the scan changes nothing, and unknown scan types are refused.",
     CFG, "all positions, pitches, pixel sizes and scan types",
     "The tests evaluate one set of numbers.",
     [("range", CA + ":calculate_reconstructable_height, "
       "calculate_maximum_index")],
     "property-based testing against the definition")
prop("C24", "Fresnel and double-wedge filters equal their definition",
     "The Fresnel filter divides the spectrum of the padded (log) image by "
     "one plus the ratio times the squared frequency, so a zero ratio or a "
     "flat image changes nothing. The double-wedge filter removes exactly "
     "the Fourier components no object within the radius can have, and keeps "
     "the sinogram of such an object.",
     CFG, "all image sizes, ratios, dimensions, paddings, radii, "
     "iterations and centres",
     "The tests compare one standard deviation before and after.",
     [("filters", FI + ":fresnel_filter, double_wedge_filter")],
     "property-based testing against spectral reference models")
prop("C18", "Stitching and joining blend images without seams",
     "Images of one scene stitched by their overlap give the scene: outside "
     "the overlap each image untouched, inside it the linearly weighted mean, "
     "as many columns as the overlap leaves, with fractional overlaps shared "
     "between both images. Joining keeps each image up to a few columns from "
     "the gap and bridges it linearly, row by row. "
     "Stitching many images equals stitching pair by pair, and full-turn "
     "halves meet at the axis.",
     CFG, "all images, types, widths, integer and fractional overlaps and "
     "gaps, sides, weights and normalisation",
     "The tests stitch two constant images and check the shape.",
     [("weights", CN + ":make_weight_matrix"),
      ("stitching", CN + ":stitch_image, stitch_image_multiple"),
      ("joining", CN + ":join_image, join_image_multiple")],
     "property-based testing: reference model and known ground truth")
prop("C19", "Half-turn, full-turn and extended sinograms convert truthfully",
     "A full-turn offset sinogram converts to the half-turn sinogram of the "
     "same object with the axis at the reported place; a half-turn one "
     "converts to the full-turn sinogram in which each row appears mirrored "
     "half a turn later; extending pads a full-turn sinogram to both sides "
     "of the axis. The object reconstructed stays the same.",
     CFG, "all objects, axis positions, sides, sizes and angles",
     "The tests check the shapes of one phantom.",
     [("conversion", CN + ":convert_sinogram_360_to_180, "
       "convert_sinogram_180_to_360, extend_sinogram")],
     "property-based testing against analytic sinograms")
prop("C20", "Sinograms of helical scans look at one height of the sample",
     "Every row of a sinogram generated from a helical scan is the detector "
     "row, interpolated and flat-field corrected, that looks at the requested "
     "height in successive projections, starting with the first to see it; "
     "the angles are those of these projections, covering a half turn or a "
     "full turn. Heights outside the reconstructable range are refused.",
     CFG, "all scan geometries, heights, crops, flats and scan types",
     "The tests use one geometry and check the shape.",
     [("helical", CN + ":generate_sinogram_helical_scan")],
     "property-based testing against a geometric model")
prop("C21", "Stripe removal obeys its laws and removes stripes",
     "Every stripe-removal method keeps the shape, leaves its input "
     "untouched, is deterministic, scales with the gain of the sinogram and "
     "(where defined so) commutes with mirroring and with reordering rows. A "
     "clean stripe on a smooth sinogram is removed for the most part, and "
     "the rest of the image hardly changes.",
     CFG, "all sinograms, stripe positions and widths, methods and "
     "parameters",
     "The tests add one stripe to one sinogram and compare means.",
     [("methods", RM + ":remove_stripe_based_sorting, remove_large_stripe, "
       "remove_all_stripe, remove_stripe_based_fft")],
     "metamorphic property-based testing")
prop("C22", "Each stripe-removal method does what its definition says",
     "For every set of options each stripe-removal method equals, pixel by "
     "pixel, a straightforward statement of its published definition: "
     "sorting, filtering, fitting, large and dead stripes, 2D filtering, "
     "normalisation, regularisation, Fourier, wavelet and interpolation "
     "methods; unknown options are refused.",
     CFG, "all sinograms, parameters and options of every method",
     "The tests check that one column became smoother.",
     [("methods", RM + ":remove_stripe_based_sorting, "
       "remove_stripe_based_filtering, remove_stripe_based_fitting, "
       "remove_large_stripe, remove_dead_stripe"),
      ("methods (2)", RM + ":remove_stripe_based_normalization, "
       "remove_stripe_based_regularization, remove_stripe_based_fft, "
       "remove_stripe_based_wavelet_fft, "
       "remove_stripe_based_interpolation")],
     "property-based testing against reference models")
prop("C23", "Zingers and blobs are removed and nothing else is changed",
     "Removing zingers replaces exactly the pixels brighter than the mean of "
     "their neighbours by the threshold in components up to the given size; "
     "removing blobs interpolates exactly the masked pixels (two at each end "
     "of a row excepted) from the ends of each run. Whole components are kept or dropped by size, masks and "
     "inputs stay as they were, and every other pixel is untouched.",
     INP, "all images, masks, thresholds and sizes, including blobs touching "
     "edges and neighbouring components",
     "The tests use one bright pixel and one rectangular blob.",
     [("zingers", RM + ":remove_zinger, select_zinger"),
      ("blobs", RM + ":generate_blob_mask, remove_blob, remove_blob_1d")],
     "property-based testing against brute-force models")
prop("C25", "Unwrapping a phase image gives the phase back",
     "Whatever multiples of two pi are added to its pixels, a phase whose "
     "neighbours differ by less than pi comes back but for its mean (cosine "
     "method); a gentle one comes back approximately with the Fourier method "
     "and exactly with its iterations, weighted or not. The quality map is "
     "the local spread of wrapped differences around each pixel; the weight "
     "mask marks outliers whatever gain and offset.",
     INP, "all phase surfaces, wraps, image sizes, windows, weights",
     "The tests unwrap one bump and compare at one tolerance.",
     [("unwrapping", PH + ":unwrap_phase_based_cosine_transform, "
       "unwrap_phase_based_fft, unwrap_phase_iterative_fft"),
      ("quality", PH + ":get_quality_map, get_weight_mask")],
     "property-based testing: round trip and reference models")
prop("C26", "Surfaces are integrated from their gradients",
     "Integrating two gradients gives, but for a constant, the surface having "
     "them: bumps on a plane come back with their height, a periodic wave "
     "with the gain of the discrete operators, any gradients with the "
     "spectrum fitting both best. The result is linear in the gradients, "
     "symmetric in both directions and without negative heights if asked; "
     "mismatched sizes are refused.",
     CFG, "all gradients, image sizes (square or not), paddings and windows",
     "The tests integrate one symmetric gradient on a square image.",
     [("FC", PH + ":reconstruct_surface_from_gradient_FC_method"),
      ("SCS", PH + ":reconstruct_surface_from_gradient_SCS_method")],
     "property-based testing: round trip and spectral reference models")
prop("C27", "Speckle tracking gives shifts, transmission and dark signal",
     "Each pair of a reference and a sample image gives its own shift; "
     "aligning undoes the shifts of both stacks. Transmission and dark signal "
     "at a pixel compare the window around it with the window it comes from "
     "in the reference. The phase retrieved is the surface whose slopes are "
     "the shifts found, whatever the number of workers; stacks not of the "
     "same length are refused.",
     CFG, "all images, shifts, windows, margins, surface methods and options",
     "The tests use random images and check shapes.",
     [("stacks", PH + ":find_shift_between_image_stacks, "
       "find_shift_between_sample_images, align_image_stacks"),
      ("signals", PH + ":get_transmission_dark_field_signal"),
      ("retrieval", PH + ":retrieve_phase_based_speckle_tracking")],
     "property-based testing: reference model and known ground truth")
prop("C40", "Correlation maps and their peaks give the shift of two images",
     "Every entry of a correlation map is the Pearson coefficient of the "
     "small image and that part of the large one. A parabolic peak is "
     "located exactly, a peak stays within half a pixel of the extreme, and "
     "the shift between two images of one texture is found, whatever gain "
     "and offset, locally or as the robust mean over points. Unfit sizes and "
     "points are refused.",
     CFG, "all images, stacks, windows, margins, shifts, peak methods",
     "The tests use one pair of images shifted by whole pixels.",
     [("maps", CR + ":generate_correlation_map, normalize_image"),
      ("peaks", CR + ":locate_peak"),
      ("shifts", CR + ":find_shift_based_correlation_map, "
       "find_global_shift_based_local_shifts")],
     "property-based testing: reference model and known ground truth")
prop("C41", "Maps of local shifts hold each pixel's own shift",
     "Every pixel of a shift map is the shift between the window around it "
     "and the reference around it, along one axis or both, zero where no "
     "window fits; the UMPA method gives shift, transmission and dark signal "
     "minimising its cost. A texture moved, weakened and blurred as a whole "
     "gives these back everywhere, whatever the number of workers and "
     "chunks. Unfit sizes are refused.",
     CFG, "all images, stacks, windows, margins, methods, chunks, workers",
     "The tests run one pair of images and check one mean shift.",
     [("local shifts", CR + ":find_local_shifts"),
      ("UMPA", CR + ":find_local_shifts_umpa")],
     "property-based testing: naive reference model and known ground truth")
prop("C28", "Back-projection sums each row where the pixel projects onto",
     "Every pixel of a back-projection is the sum over all rows of the value, "
     "linearly interpolated, at the position the pixel projects onto at that "
     "angle; beyond the ends of a row it is zero, or the last value if asked. "
     "The same call always gives the same result however threads are "
     "scheduled; the order of rows does not matter.",
     ["inputs", "interleavings"], "all sinograms, angles, centres and thread schedules seen",
     "The tests reconstruct one phantom and look at one region.",
     [("back-projection", RE + ":back_projection_cpu")],
     "property-based testing against a reference model; repeated runs under "
     "threads", "Thread schedules are sampled, not enumerated.")
prop("C29", "FBP, BPF and DFI equal their definitions for slices and stacks",
     "For every filter, padding, ratio, angle list and centre, filtered "
     "back-projection, back-projection filtering and direct Fourier inversion "
     "give what their formulas say, with the stated scaling, circular mask "
     "and handling of values the logarithm is not defined for. A stack gives "
     "its slices, whatever the number of threads; inputs are not modified; "
     "wrong centres and angle lists are refused.",
     CFG, "all sinograms (2D, 3D, types), angles, filters, paddings, ratios "
     "and numbers of threads",
     "The tests reconstruct one phantom and look at one region.",
     [("FBP", RE + ":fbp_reconstruction, apply_ramp_filter, "
       "make_2d_ramp_window"),
      ("BPF", RE + ":bpf_reconstruction, apply_circular_ramp_filter"),
      ("DFI", RE + ":dfi_reconstruction")],
     "property-based testing against reference models",
     "gridrec and ASTRA wrappers need packages not installed here.")
prop("C30", "A slice reconstructed from projections is the object",
     "Discs come out of their exact projections where they are, as large as "
     "they are and with their value, by each of FBP, BPF and DFI, from angles "
     "in either direction, with any start, over a half or a full turn, with "
     "the axis off the middle. The methods agree; turning the angles turns "
     "the image; a wrong centre spoils it.",
     CFG, "all objects of discs, axis positions, angle ranges and widths",
     "The tests reconstruct one phantom with the axis in the middle.",
     [("methods", RE + ":fbp_reconstruction, bpf_reconstruction, "
       "dfi_reconstruction")],
     "property-based testing against analytic projections")
prop("C31", "The centre found is the candidate with the best slice",
     "The value listed for each candidate centre is the metric asked for of "
     "the slice reconstructed there; the least (or, inverted, greatest) wins, "
     "first over whole pixels of the reduced sinogram, then around it at the "
     "step asked for. For the exact sinogram of an object the axis is found "
     "to a pixel. Visual search writes one correct slice per candidate.",
     CFG, "all sinograms, ranges, steps, zooms, metrics, methods and options",
     "The tests search one phantom with the default options.",
     [("metric search", RE + ":find_center_based_slice_metric"),
      ("visual search", RE + ":find_center_visual_slices")],
     "property-based testing: naive reference search and known ground truth")
prop("C32", "Vertical slices equal their definition, one or many at a time",
     "A vertical slice is, at every point of the plane at the distance and "
     "angle asked for, the flat-field corrected projections, ramp-filtered "
     "before or after, summed where the point projects onto, scaled and "
     "masked: for any crop, range of projections, angles, chunk size and "
     "number of threads. Many slices at a time are the single ones; inputs "
     "stay as they were; positions outside the image are refused.",
     CFG, "all projections and types, flats, darks, crops, ranges, chunk "
     "sizes, angles, filters and paddings",
     "The tests reconstruct one phantom with two or three option sets.",
     [("geometry", VR + ":_get_points_single_line"),
      ("back-projection", VR + ":vertical_back_projection_cpu, "
       "vertical_back_projection_cpu_chunk"),
      ("reconstruction", VR + ":vertical_reconstruction, "
       "vertical_reconstruction_multiple, "
       "vertical_reconstruction_different_angles")],
     "property-based testing against reference models")
prop("C33", "Vertical slices show the object and find the centre",
     "Cylinders cut by a plane at any angle and distance come out where they "
     "are, for angles in either direction with any start; along an axis the "
     "vertical slice is that row or column of the horizontal slices. The "
     "centre search lists for each candidate the metric of the slice "
     "reconstructed there and returns the least; visual search writes one "
     "correct slice per candidate.",
     CFG, "all objects, planes, axis positions, ranges, metrics and options",
     "The tests cut one phantom and check the centre of one search.",
     [("reconstruction", VR + ":vertical_reconstruction"),
      ("search", VR + ":find_center_vertical_slice, "
       "find_center_visual_vertical_slices")],
     "property-based testing: differential, known ground truth, naive "
     "reference search",
     "That the best metric lies at the true axis is not claimed: it does not "
     "for every object.")

prop("C34", "Downsampling and rescaling are cell-wise and linear, image by image",
     "Each pixel of a downsampled image is the mean, median, max or min of "
     "its cell; incomplete cells at the end are left out. Rescaled values map "
     "linearly from the limits to the full range of the unsigned type asked "
     "for, clipped, in order and cut to integers, for any input type. A dataset, be it tif, "
     "hdf or array, in and out, is treated image by image after the crop, in "
     "order, with one common pair of limits.",
     CFG, "all images and types, cell sizes, methods, bit depths, limits, "
     "crops and kinds of input and output",
     "The tests run one random stack per option and look at shapes.",
     [("images", PP + ":downsample, rescale"),
      ("datasets", PP + ":downsample_dataset, rescale_dataset")],
     "property-based testing against naive reference models")
prop("C35", "Reslicing a dataset gives its other planes, turned and cropped",
     "Slice i of a dataset resliced along axis 1 or 2 is row or column i of "
     "the cropped stack, in order, whatever the kinds of input and output "
     "(tif, hdf), the chunk size and the axis; turning is about the middle of "
     "the image and before the crop; with rescaling all slices share one "
     "pair of limits. Nothing else is left behind or removed. Options that "
     "make no sense are refused.",
     CFG, "all stacks, crops, axes, chunk sizes, angles, limits and kinds of "
     "input and output",
     "The tests reslice one stack per option and look at shapes.",
     [("reslicing", PP + ":reslice_dataset")],
     "property-based testing: differential against array slicing")
prop("C36", "Statistics of images and datasets are the numbers they are named",
     "The seven numbers for an image (least, greatest, two percentiles, mean, "
     "median, variance) are those of its values. For a dataset they combine "
     "those of the images looked at, every skip-th of the crop: least of the "
     "least, greatest of the greatest, and the mean of the others, the same "
     "for tif, hdf and array input, denoised once if asked. A stack of equal "
     "images has the statistics of one.",
     CFG, "all images, types, percentile pairs, crops, skips and input kinds",
     "The tests check that the minimum is below the maximum for one stack.",
     [("statistics", PP + ":get_statistical_information, "
       "get_statistical_information_dataset")],
     "property-based testing against naive reference models")
prop("C37", "Ring removal is stripe removal in polar coordinates",
     "Removing rings from a slice gives the slice taken to polar coordinates "
     "about its middle, freed of stripes, and taken back; outside the circle "
     "the slice is unchanged, and the slice given is never changed. Fine "
     "rings lose most of their strength; without sorting the result is linear "
     "in the slice. Slices not square are refused.",
     CFG, "all square slices, sizes, kernel sizes and both methods",
     "The tests run one image with one ring and compare means.",
     [("methods", PP + ":remove_ring_based_fft, "
       "remove_ring_based_wavelet_fft")],
     "property-based testing: differential against the composition, "
     "metamorphic relations")
prop("C38", "Dots of calibration images are found and measured",
     "Thresholding finds every dot over a noisy background and nothing else, "
     "for either contrast and any gain and offset; the threshold depends on "
     "the histogram alone. Dot sizes are the largest, least, mean or median "
     "area; the selection by size keeps whole dots of that size wherever "
     "others lie; the distance is that of the dots' centres. Flattening "
     "divides by the local background and keeps the mean.",
     CFG, "all dot images, contrasts, gains, thresholds, options",
     "The tests use one or two synthetic images with fixed dots.",
     [("segmentation", CB + ":calculate_threshold, binarize_image"),
      ("dots", CB + ":get_dot_size, select_dot_based_size, "
       "calculate_distance"),
      ("flattening", CB + ":normalize_background, "
       "normalize_background_based_fft")],
     "property-based testing: known ground truth, naive reference models, "
     "metamorphic relations")
prop("C39", "Tilt and roll are recovered from the path of a point",
     "Points of an ellipse give its axes, angle and centre, wherever it lies "
     "and in whatever order they come. A full turn of a point seen under a "
     "tilted and rolled axis gives tilt and roll, down to no tilt at all, by "
     "either method. Points that fit no ellipse, lists of different lengths "
     "and unknown methods are refused or fall back on a line as documented.",
     INP, "all ellipses, tilts, rolls, point counts and orders",
     "The tests use one or two ellipses.",
     [("ellipse", CB + ":fit_points_to_ellipse"),
      ("tilt and roll", CB + ":find_tilt_roll")],
     "property-based testing against known ground truth")
prop("C42", "Masks and phantoms have the geometry asked for",
     "Elliptic, rectangular and triangular masks cover exactly the pixels of "
     "the shape of the lengths given, turned counter-clockwise by the angle "
     "given, about the centre given. The line target has groups of three "
     "equal lines cut from a disc, alike along both axes; the face phantom "
     "is symmetric, never negative and scales with the size.",
     INP, "all sizes, centres, lengths and angles",
     "The tests check sums of one or two masks.",
     [("masks", SI + ":make_elliptic_mask, make_rectangular_mask, "
       "make_triangular_mask"),
      ("phantoms", SI + ":make_line_target, make_face_phantom")],
     "property-based testing against analytic geometry")
prop("C43", "Simulated sinograms are line integrals; artifacts do as named",
     "Simulated projections of smooth objects are their line integrals, for "
     "any angles; at right angles they are sums of rows and columns; they "
     "are linear in the image and reconstruct to it. Stripes change the "
     "columns they cover alone and as their type says; X-ray images are the "
     "exponential of the sinogram; beam fluctuation and noise have the share "
     "asked for; inputs stay as they were.",
     CFG, "all images, angles, paddings, artifact types, positions, strengths",
     "The tests check one phantom's shape and that artifacts change something.",
     [("projections", SI + ":make_sinogram"),
      ("artifacts", SI + ":add_stripe_artifact, convert_to_Xray_image, "
       "add_background_fluctuation, add_noise")],
     "property-based testing: analytic ground truth, metamorphic relations")
prop("C44", "The GPU code gives what the CPU code gives",
     "Back-projection, FBP and BPF, vertical reconstruction, correlation "
     "maps, local and global shifts and the UMPA method give on GPU, alone or "
     "together with the CPU, what they give on CPU: for one image and stacks, "
     "any shape of the blocks of threads, any chunk size; for images of any "
     "size, whether or not the blocks divide it. Inputs stay as they were.",
     CFG, "all images, stacks, geometries, block shapes, chunk sizes",
     "The tests skip the GPU code where there is no GPU, and compare one "
     "phantom at one block size where there is.",
     [("slices", RE + ":back_projection_gpu, back_projection_gpu_chunk, "
       "fbp_reconstruction, bpf_reconstruction"),
      ("vertical slices", VR + ":vertical_back_projection_gpu, "
       "vertical_back_projection_gpu_chunk"),
      ("correlation", CR + ":generate_correlation_map, find_local_shifts, "
       "find_global_shift_based_local_shifts, find_local_shifts_umpa")],
     "differential property-based testing, GPU kernels run in the CUDA "
     "simulator of numba",
     "There is no GPU here: kernels run thread by thread in the simulator, "
     "which checks indexing and arithmetic, not races or float32 rounding on "
     "hardware.")
prop("C45", "Inputs stay as they were and memory layout does not matter",
     "No function that takes arrays changes those it is given; it gives the "
     "same result for the same numbers whatever their layout in memory (C or "
     "Fortran order, strided, reversed, part of a larger array, read-only), "
     "and the same result when called again.",
     INP, "all functions taking arrays, all contents, types and layouts",
     "The tests pass fresh contiguous arrays and do not look at them again.",
     [("stripes, zingers, blobs", RM + ":remove_stripe_based_sorting, "
       "remove_all_stripe, remove_zinger, remove_blob"),
      ("reconstruction", RE + ":fbp_reconstruction, dfi_reconstruction"),
      ("vertical slices", VR + ":vertical_reconstruction"),
      ("correction", CO + ":flat_field_correction, unwarp_projection"),
      ("conversion", CN + ":stitch_image, extend_sinogram"),
      ("correlation", CR + ":find_local_shifts, find_local_shifts_umpa"),
      ("phase", PH + ":unwrap_phase_iterative_fft, align_image_stacks"),
      ("calibration", CB + ":binarize_image, normalize_background"),
      ("utilities", UT + ":sort_forward, separate_frequency_component")],
     "metamorphic property-based testing over a catalogue of calls")
prop("C46", "Images of an integer type are treated as the numbers they hold",
     "Images and stacks of any integer type, signed or unsigned, up to the "
     "ends of its range, give what the same numbers give as floats, up to "
     "rounding to whole numbers: nothing wraps around, is cut, or becomes "
     "infinite because of the type.",
     INP, "all functions taking images, all integer types, values up to the "
     "range of the type",
     "The tests use floats between zero and one.",
     [("stripes", RM + ":remove_dead_stripe, remove_stripe_based_fft"),
      ("correction", CO + ":flat_field_correction"),
      ("phase correlation", CA + ":complex_gradient"),
      ("conversion", CN + ":make_weight_matrix, stitch_image"),
      ("vertical slices", VR + ":vertical_reconstruction"),
      ("back-projection", RE + ":back_projection_cpu"),
      ("correlation", CR + ":find_local_shifts_umpa, locate_peak"),
      ("utilities", UT + ":separate_frequency_component, "
       "apply_1d_regularizer")],
     "metamorphic property-based testing over a catalogue of calls",
     "Phases and coordinates, real by nature, are left out; 8-bit images "
     "are not given to logarithms, which numpy computes in half precision.")
prop("C47", "Reconstructions left to other packages get the right data",
     "What the gridrec (Tomopy) and Astra wrappers hand to the package is the "
     "sinogram or each sinogram of a stack, its logarithm taken safely, "
     "padded by its edges, the centre moved along with the padding (or "
     "brought to the middle), with the angles, filter, method and iterations "
     "asked for; what they return is the part belonging to the sinogram, "
     "inside the circle, in the layout of the input, with nothing left "
     "behind in the package; a centre outside, a wrong number of angles, "
     "unknown methods, or a missing package are refused. Searching for a "
     "centre with these methods compares and writes those slices.",
     CFG, "all sinograms and stacks, centres, paddings, angles, methods, "
     "filters, with and without a GPU",
     "Neither package is installed where the tests run; there are none.",
     [("wrappers", RE + ":gridrec_reconstruction, astra_reconstruction"),
      ("searching", RE + ":_reconstruct_slice, find_center_visual_slices, "
       "find_center_based_slice_metric")],
     "model-based property testing against recording stand-ins for the "
     "packages",
     "The stand-ins model the calls of the packages used; the packages' own "
     "reconstruction is not run.")
prop("C48", "Options left out take their documented values, in documented order",
     "For every public function, leaving options out gives the same result, "
     "files included, as giving them their documented values, whatever the "
     "other options are; and arguments and options mean the same given by "
     "name or by position in the documented order.",
     CFG, "all inputs, all subsets of options left out or given, by name or "
     "position",
     "The tests pass mostly default options and never compare with the "
     "documented values.",
     [("stripes", RM + ":remove_all_stripe, remove_large_stripe"),
      ("centre and overlap", CA + ":find_overlap, find_center_vo"),
      ("reconstruction", RE + ":fbp_reconstruction, dfi_reconstruction"),
      ("vertical slices", VR + ":vertical_reconstruction"),
      ("data sets", PP + ":rescale_dataset, reslice_dataset"),
      ("files", LS + ":get_tif_stack, make_folder_name"),
      ("conversion of files", CV + ":convert_tif_to_hdf"),
      ("shifts", CR + ":find_local_shifts"),
      ("phase", PH + ":retrieve_phase_based_speckle_tracking"),
      ("calibration", CB + ":binarize_image"),
      ("simulation", SI + ":make_sinogram"),
      ("utilities", UT + ":mapping, generate_spiral_positions")],
     "metamorphic property-based testing over a table of documented options",
     "The documented values and orders are the table in props/C48.py and "
     "C48.txt. Options for the number of workers and the GPU are given to "
     "keep calls cheap.")
