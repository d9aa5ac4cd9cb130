"""Properties: the single source of properties.jsonl and MANIFEST.json (see gen.py)."""
U = "src/ska-sdp-func/utility/"
FT = "src/ska-sdp-func/fourier_transforms/"
GD = "src/ska-sdp-func/grid_data/"
VIS = "src/ska-sdp-func/visibility/"
CL = "src/ska-sdp-func/clean/"
SB = "src/ska-sdp-func/station_beam/"
NF = "src/ska-sdp-func/numeric_functions/"
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, quant, why, files, mech, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      note=note, **kw))


prop("M01", "Array handles keep their data, shape, flags and lifetime consistent",
     "Whatever sequence of create, wrap, alias, slice, copy, resize, reference-count, read-only and clear operations is "
     "applied to array handles, every live handle reports the type, shape, strides, contiguity, location, read-only flag and "
     "data address that follow from that sequence, and its elements are exactly those last written through any handle sharing "
     "the memory. Memory owned by a handle is released exactly when its last reference goes, a handle that does not own its "
     "memory never releases it, and handles derived from read-only memory stay read-only. Requests outside the array are "
     "refused without touching memory outside it.",
     ["histories"], "every sequence of handle operations up to depth 4 (quick) / 5 (thorough) over small arrays of several "
     "types, shapes and strides, with up to four live handles",
     "The tests use each operation once or twice in isolation; they never interleave aliases, slices, copies, reference counts "
     "and resizes on strided or read-only arrays.",
     [U + "sdp_mem.cpp", U + "sdp_mem.h"],
     [("handle creation and derivation", "sdp_mem_create*, sdp_mem_create_alias, sdp_mem_create_wrapper_for_slice"),
      ("reference counting and release", "sdp_mem_ref_inc, sdp_mem_ref_dec, sdp_mem_free"),
      ("clear and copy", "sdp_mem_clear_contents, sdp_mem_copy_contents, sdp_mem_create_copy")],
     "exhaustive operation sequences against a reference model of handles and memory blocks, under the address sanitizer; "
     "bounds: depth, array sizes <= 3x3, CPU memory only",
     state=[("handle", "type, shape, stride, reference count, ownership and read-only flags", "struct sdp_Mem")])

prop("M02", "Element-wise array operations touch exactly the elements they name",
     "Setting, clearing, copying, scaling and converting the precision of arrays gives, for every element, the mathematically "
     "defined value in the array's own type, for every supported type, shape and memory layout. "
     "Bytes between or outside the named elements are never changed, and out-of-range element ranges and unsupported types "
     "are refused with an error status and unchanged outputs.",
     ["inputs", "configurations"], "every combination of element type, dimension count (0-3), small shape, memory layout "
     "(contiguous, gapped, transposed), and every offset/length range in and just beyond the arrays",
     "The tests use one contiguous array per function; layout, type and range combinations are unbounded.",
     [U + "sdp_mem.cpp", U + "sdp_mem_view.h"],
     [("element-wise kernels", "sdp_mem_set_value, sdp_mem_add_real, sdp_mem_scale_real, sdp_mem_convert_precision, "
       "sdp_mem_random_fill"), ("ranges", "sdp_mem_clear_portion, sdp_mem_copy_contents")],
     "exhaustive over types x shapes x layouts x ranges against a per-element oracle; bounds: arrays up to a few elements per "
     "dimension, CPU memory only")

prop("F01", "FFT plans compute the discrete Fourier transform for every size and history",
     "Executing a transform plan writes the unnormalised forward or inverse discrete Fourier transform of the input to the "
     "output over the chosen trailing dimensions, for every size, batch, precision, direction and in-place use, to within "
     "rounding, and leaves an out-of-place input unchanged. The result does not depend on which other plans were created, "
     "executed or freed before. Arrays which are read-only, not contiguous, of unequal or non-complex types, of mismatching "
     "shape, or with an unsupported number of transform dimensions are refused, leaving outputs unchanged.",
     ["inputs", "histories", "configurations"], "every basis vector of every listed size (1-D 1..40 and selected primes and "
     "composites, 2-D up to 9x9, 3-D, batches), both precisions and directions; every plan history to depth 4/5; every "
     "combination of invalid arguments",
     "Tests transform a handful of sizes once each with random data; size-dependent factorisations, vectorised batches and the "
     "plan cache are sampled at a few points only.",
     [FT + "sdp_fft.cpp", FT + "pocketfft_hdronly.h"],
     [("plan creation and checks", "sdp_fft_create, sdp_fft_exec"), ("length-keyed plan cache", "pocketfft get_plan")],
     "linearity makes the set of basis vectors complete for each size; plan histories enumerated to a depth; argument errors "
     "enumerated; bounds: sizes listed in the harness")

prop("F02", "Padded FFT size is the smallest even 11-smooth size that is large enough",
     "The padded size returned for a requested size and padding factor is the smallest even number with no prime factor above "
     "11 that is at least the requested size times the factor, rounded up.",
     ["inputs"], "every size in an interval from 0 (4 thousand quick, 65 thousand thorough) and every size next to a smooth "
     "number, where the answer changes, up to 2e6 (quick) / 1e9 (thorough), for 13 padding factors",
     "No test calls it; the answer depends on a heap-based search whose mistakes show only at particular sizes.",
     [FT + "sdp_fft_padded_size.cpp"], [("smooth number enumeration by min-heap", "sdp_fft_padded_size")],
     "exhaustive sweep against a precomputed sorted list of smooth numbers; bounds: as stated")

prop("F03", "FFT shift, normalisation and shifted execution match their definitions",
     "The phase operation multiplies element (i, j) by (-1)^(i+j), normalisation divides by the number of elements, and shifted "
     "execution equals phase, transform, phase and optional normalisation; for even sizes that is the transform with the "
     "origin at the array centres, up to a fixed sign.",
     ["inputs", "configurations"], "every 2-D shape up to 9x9 (quick) / 17x17 (thorough), both precisions, three memory layouts, "
     "both directions, every basis vector and a dense array",
     "Tests check one or two square even sizes; odd and non-square sizes and strided arrays are not exercised.",
     [FT + "sdp_fft.cpp"], [("checker-board phase and scaling", "sdp_fft_phase, sdp_fft_norm, sdp_fft_exec_shift")],
     "exhaustive over shapes/layouts/basis vectors; bounds: array size")

prop("F04", "FFT convolution equals the direct same-size convolution sum",
     "The convolution of two square complex images is, for every pair of sizes, odd or even, the central part of the full "
     "convolution with the size of the first image, to within rounding, and inputs are left unchanged.",
     ["inputs", "configurations"], "every pair of sizes up to 9 (quick) / 17 (thorough), both precisions, every basis image on "
     "either side plus dense images",
     "The test convolves one even-sized pair, where padding offsets happen to be exact.",
     [NF + "sdp_fft_convolution.cpp"], [("padding, transform, product, crop", "sdp_fft_convolution")],
     "bilinearity makes basis images on either side complete for each size pair; bounds: size")

prop("P01", "Prolate spheroidal wave functions are evaluated correctly everywhere",
     "Point evaluation and array generation return the prolate spheroidal angular function of the first kind of the requested "
     "mode and size parameter, normalised at the origin, even in its argument and zero outside (-1, 1). Generated arrays sample "
     "it at the centred regular grid in every array type and layout, with the first element of even-sized arrays set to zero or "
     "the end correction, and regenerating cached values replaces them completely.",
     ["inputs", "configurations", "histories"], "modes 0..4 (quick) / 0..8, 24 size parameters from 0 to 30, 401 arguments, "
     "array sizes 1..12 / 1..40 in four types, cached regeneration for every pair of sizes",
     "The test compares one parameter pair at a few sizes with stored numbers.",
     [FT + "sdp_pswf.cpp", FT + "private_pswf.h"],
     [("expansion coefficients and evaluation", "sdp_pswf_create, sdp_pswf_evaluate"), ("array generation and cache", "sdp_pswf_generate")],
     "oracle: tridiagonal eigenproblem in long double; tolerance grows with the size parameter as the published algorithm's "
     "cancellation does; bounds: size parameter <= 30")

prop("S01", "Distributed Fourier transform steps reproduce the transform of the whole image",
     "For every admissible combination of image, facet and subgrid sizes and for every facet and subgrid offset, positive or "
     "negative, each facet and subgrid operation applies exactly its defined linear operator along its axis for every row and "
     "memory layout, two-dimensional forms equal the one-dimensional form applied along both axes, and accumulating operations "
     "add to what is there. Chained from facet to subgrid or back, they reproduce the Fourier transform of the whole image to "
     "the accuracy of the window. Size combinations that are not positive, divisible and even are refused.",
     ["inputs", "configurations"], "nine (quick) / fourteen (thorough) size combinations including odd contribution sizes, all "
     "offsets over three to four periods, all facet and subgrid data sizes, every basis vector",
     "Tests use a single size combination and few offsets; wrap-around and sign conventions depend on each of them.",
     [FT + "sdp_swiftly.cpp"], [("offset and wrap-around arithmetic", "sdp_swiftly_*"), ("window functions", "sdp_swiftly_create")],
     "linearity makes basis vectors complete for each configuration and offset; oracle written with modular indices from the "
     "operator definitions, window from an independent eigen-solver; bounds: sizes <= 96 per-op, <= 288 pipelines")

prop("K01", "Channel clamping and partitioning select exactly the channels within range",
     "Clamping a row's channels to a coordinate range keeps exactly the contiguous channels whose scaled coordinate lies in the "
     "half-open range [min, max), for every sign and size of coordinate, channel width and range including infinite ones, to "
     "within rounding at the boundaries; adjacent ranges therefore partition the channels, each channel falling into exactly "
     "one. The u, v and single-axis forms update every row's start and end within the channels given, and never outside them.",
     ["inputs", "configurations"], "every combination of coordinate (positive, negative, zero, tiny, huge), start frequency, "
     "channel width, initial channel range and bounds placed on, just below, just above and between every channel",
     "Tests use typical positive values; boundary equality, negative coordinates and empty or infinite ranges decide whether "
     "visibilities are lost or counted twice.",
     [GD + "sdp_gridder_clamp_channels.cpp", GD + "sdp_gridder_clamp_channels.h"],
     [("bound to channel conversion", "sdp_gridder_clamp_channels_inline"),
      ("array forms", "sdp_gridder_clamp_channels_single, sdp_gridder_clamp_channels_uv")],
     "oracle: long-double comparison per channel with an ambiguity band of rounding size at bounds, and the partition law "
     "without any band; bounds: up to 8 channels, listed magnitudes")

prop("G01", "Direct gridding and degridding evaluate the measurement equation exactly",
     "Direct degridding of a sub-grid image gives, for every row and every channel in that row's range, the sum over pixels of "
     "the pixel value times the conjugate phase for its direction cosines, and direct gridding adds to every pixel the sum over "
     "those same channels of the visibility times the phase; channels outside the range are neither read nor changed. This "
     "holds for every sub-grid offset, shear, precision and memory layout, and the correction functions divide by the taper and "
     "the w-stack phase used.",
     ["inputs", "configurations"], "every pixel and every visibility as a basis, all sub-grid offsets in a small cube, shears, "
     "positive and negative baselines, all channel ranges, three type combinations and strided arrays",
     "Tests compare the direct gridder with the fast one at a single configuration with all channels active.",
     [GD + "sdp_gridder_direct.cpp"],
     [("direct sums", "sdp_gridder_direct_degrid, sdp_gridder_direct_grid"),
      ("correction", "sdp_gridder_direct_degrid_correct, sdp_gridder_direct_grid_correct")],
     "oracle: long-double direct sum; linearity makes the impulse bases complete per configuration; bounds: sub-grids up to 6x6, "
     "up to 4 channels; even sub-grid sizes")

prop("G05", "Gridder helper operators compute their defined arithmetic on every element",
     "Each shared gridder operation (accumulating and dividing by powers of the w-pattern, residual and RMS, cutting out and "
     "adding wrapped sub-grids, shifting sub-grid stacks, visibility counts and sums, UVW bounds, w-step, kernels and w-pattern "
     "generation) gives its defined result on every element for every size, offset, exponent, precision and memory layout, and "
     "changes nothing else.",
     ["inputs", "configurations"], "all small square and non-square sizes, every sub-grid offset over two periods of the grid, "
     "exponents -3..3, all channel ranges, four type combinations, three layouts, with and without row sub-ranges",
     "The gridder tests exercise them only through complete runs on one square configuration whose tolerances hide local errors.",
     [GD + "sdp_gridder_utils.cpp"],
     [("wrapped sub-grid addressing", "sdp_gridder_subgrid_add, sdp_gridder_subgrid_cut_out"),
      ("image arithmetic", "sdp_gridder_accumulate_scaled_arrays, sdp_gridder_scale_inv_array"),
      ("bounds and counts", "sdp_gridder_uvw_bounds_all, sdp_gridder_sum_diff, sdp_gridder_count_nonzero_pixels")],
     "oracle: definitions in double/long double; bounds: sizes up to about 7x9")

prop("G06", "Grid correction divides by the gridding taper at every pixel of a facet",
     "For every image size, facet size and facet offset, grid correction divides each facet pixel by the product of the u, v and "
     "w tapers at that pixel's own direction cosines, and w-stacking correction multiplies or divides by the w phase of its w "
     "offset; a facet cut from anywhere in the image is corrected exactly as the same pixels of the whole image would be, in "
     "every type, memory layout and shear.",
     ["inputs", "configurations"], "every facet offset over small image sizes, even and odd facet shapes, supports, shears, w "
     "offsets -3..3, both directions, four types, three layouts",
     "Tests only correct a whole square image of one size.",
     [GD + "sdp_gridder_grid_correct.cpp", GD + "sdp_gridder_utils.cpp"],
     [("taper evaluation and facet offsets", "sdp_gridder_grid_correct_pswf"), ("w phase", "sdp_gridder_grid_correct_w_stack")],
     "oracle: independent wave functions and long-double geometry; bounds: image sizes up to 16, facets inside the image")

prop("G02", "W-towers (de)gridding of one visibility equals its direct sum over the sub-grid",
     "Gridding a visibility with the w-towers kernels adds to the sub-grid image, and degridding reads from it, the direct sum "
     "with that visibility's own u, v and w relative to the sub-grid offset, times the gridding tapers, to within kernel "
     "oversampling and truncation, for every position whose kernel footprint lies within the sub-grid. Visibilities whose "
     "footprint does not fit (however far away), whose channel is outside its row's range, or whose row is outside the row "
     "range contribute nothing and are not changed; every other one contributes exactly once whatever its w-plane.",
     ["inputs", "configurations"], "positions at every edge of the usable region, on and between kernel samples, w-planes -3..3, "
     "sub-grid offsets, shears, five kernels, type combinations, layouts, all row ranges and channel ranges",
     "Tests compare with a Python copy of the same kernel arithmetic, so shared mistakes and untested positions are invisible.",
     [GD + "sdp_gridder_wtower_uvw.cpp"],
     [("oversampled position, footprint check and kernel choice", "grid, degrid (sdp_gridder_wtower_uvw.cpp)"),
      ("w-plane loop", "sdp_gridder_wtower_uvw_grid, sdp_gridder_wtower_uvw_degrid")],
     "oracle: direct sum with an independent window function; one known finding (visibilities rounding up to the end of their "
     "w-plane), excluded by position; bounds: sub-grids up to 20 pixels")

prop("G03", "W-towers gridding and degridding are exact adjoints",
     "For every set of visibilities, channel ranges, sub-grid offset, shear and kernel, the matrix of w-towers degridding is the "
     "conjugate transpose of that of gridding to arithmetic precision: what a visibility adds to a pixel when gridded is the "
     "conjugate of what that pixel adds to the visibility when degridded.",
     ["inputs", "configurations"], "every visibility and every pixel as a basis, for each kernel, shear, offset, channel width, "
     "type combination and set of rows listed in the harness",
     "Tests grid and degrid separately against references with tolerances; self-consistency of the pair, which iterative "
     "imaging relies on, is not examined.",
     [GD + "sdp_gridder_wtower_uvw.cpp"], [("kernels", "grid, degrid (sdp_gridder_wtower_uvw.cpp)")],
     "linearity makes the two bases complete for each configuration; bounds: sub-grids up to 20 pixels, 5 rows x 2 channels")

prop("G04", "W-stacking predicts and images visibilities like the direct Fourier sum",
     "Whole-image degridding with w-stacked w-towers gives every visibility the sum over the image's pixels of their value times "
     "the conjugate phase, and gridding gives every pixel the sum over all visibilities times the phase, to within the stated "
     "kernels' accuracy, whatever the number of threads, tower height, shear, sub-grid fraction that leaves room for the "
     "kernel, precision and real or complex image. Every visibility is used exactly once, including those on the boundaries "
     "between sub-grids and towers and with zero or all-negative coordinates, and previous contents of the output do not matter.",
     ["inputs", "schedules", "configurations"], "configurations (type, real/complex, threads 1..4, kernel, shear, tower height) "
     "times six distributions of visibilities chosen for boundaries, signs, crowding and emptiness",
     "The tests run one or two configurations with uniformly random coordinates; boundary visibilities have measure zero there.",
     [GD + "sdp_grid_wstack_wtower.cpp", GD + "sdp_gridder_wtower_uvw.cpp"],
     [("division into towers and sub-grids", "sdp_grid_wstack_wtower_grid_all, sdp_grid_wstack_wtower_degrid_all"),
      ("task queue", "pick_task and the chunking by visibility count")],
     "oracle: long-double direct sum at six pixels; thread counts are real threads (their schedules are explored by X01); "
     "bounds: images up to 48 pixels, 12 rows or 1500 rows when crowding one sub-grid")

prop("H01", "The w-tower height search finds where the error crosses the target",
     "The height returned is twice a number p of w-planes such that a visibility p planes from the sub-grid is still degridded with an "
     "error below the target (unless p is zero) and one p + 1 planes away no longer is, where the error is the root mean square over the "
     "grid of samples of the difference between degridding the worst-case image and its direct Fourier sum, and the target defaults to "
     "twice the error on the plane. A target which is not reached and settings without room for the sources or samples give an error. "
     "The worst-case image holds exactly its four sources, at the largest distance inside the field of view which does not divide the image size.",
     ["inputs", "configurations"], "every target between any two errors of 13 consecutive planes, times sizes, kernels, fields of view, shears, "
     "w-steps, fractions and numbers of samples; the image for every size and field of view in steps of half a pixel",
     "The test asks for one configuration and compares with a recorded number; the search takes a different path for every target.",
     [GD + "sdp_gridder_wtower_height.cpp"],
     [("error of one configuration", "find_gridder_accuracy"), ("search with growing, then halving steps", "sdp_gridder_determine_max_w_tower_height"),
      ("corner sources", "sdp_gridder_worst_case_image")],
     "oracle: direct sum over the four sources, and a low-pass filter applied source by source instead of the FFTs; degridding itself is decided by G02")

prop("V01", "The ES gridder's set-up delivers the accuracy that was asked for",
     "For every accuracy and image size the chosen kernel, gridded and corrected, has a root mean square error of at most a few times the "
     "requested accuracy (down to the limit of double precision), on a grid which is twice a product of small primes, larger than the image, "
     "no larger than the accuracy needs, and never smaller for a higher accuracy, a larger image or single precision. Quadrature nodes and "
     "weights are those of Gauss-Legendre, the kernel is sampled at them, and the image correction is the kernel's transform, in exactly the "
     "elements they need. Plans with wrong arguments, or without a GPU, are refused with the right code and nothing is written.",
     ["inputs", "configurations"], "every image size up to 600 (thorough: 4000) and twelve up to a million times 160 accuracies times precisions; every support up to 20",
     "The tests need a GPU and are skipped; the choice depends on a table of 244 kernels of which one run touches one.",
     [GD + "sdp_gridder_uvw_es_fft_utils.cpp", GD + "sdp_gridder_uvw_es_fft.cpp"],
     [("choice of kernel and grid", "sdp_calculate_params_from_epsilon, sdp_good_size_complex"),
      ("quadrature and correction", "sdp_generate_gauss_legendre_conv_kernel, sdp_calculate_legendre_root"),
      ("argument checks", "sdp_gridder_check_buffers, sdp_gridder_uvw_es_fft_create_plan")],
     "oracle: long-double quadrature and a one-dimensional gridding of unit waves; the gridding kernels themselves run on GPUs only")

prop("W01", "Uniform and Briggs weights follow from the sum of weights in each grid cell",
     "Every visibility whose position lies on the grid adds its input weight, per polarisation, to exactly the cell which contains "
     "it, and to no other; visibilities outside the grid, on any side and at any distance, add nothing and their output weight is "
     "left alone. The uniform weight of a visibility is the reciprocal of its cell's sum, and its Briggs weight is its input weight "
     "divided by one plus the robustness factor times that sum, the factor following from all the cell sums seen by visibilities.",
     ["inputs", "configurations"], "every cell, the cells beyond each edge, cell boundaries and far positions for u and v, "
     "coincident, swapped and distinct further visibilities, grids 1-4 (quick) / 1-5, shapes up to 2x2x2x2, both weight types",
     "Tests use one random set of positions inside the grid with all weights equal, compared with the same loop in Python.",
     [VIS + "sdp_weighting.cpp"],
     [("gridding of weights", "weights_grid_write"), ("uniform and Briggs read-out", "uniform_weights_grid_read, "
       "briggs_weights_grid_read, sum_weights_calc, robustness_calc")],
     "oracle: long-double sums per cell; bounds: grids up to 5 cells, up to 9 visibilities")

prop("L01", "The flagger flags exactly the samples its thresholds select, in every history",
     "For each baseline and polarisation independently, and for every history of amplitudes, a sample ends up flagged if and only "
     "if it was flagged already or its own amplitude score, the broadband score of its time sample or the fluctuation score (which "
     "also flags the previous time) exceeds the given threshold at its channel or within the window of channels around it. "
     "Visibilities are never changed, and the result does not depend on the precision of the visibilities, their phases or the "
     "number of threads.",
     ["inputs", "histories", "configurations"], "all histories over three amplitudes for tables of up to 8 (quick) / 9 samples, all "
     "histories with up to two outliers in tables up to 7x5 and 4x8, times sampling step, window, median history and thresholds",
     "The tests plant one outlier in a few random tables; the recurrence over time and the windows' edges are not exercised.",
     [VIS + "sdp_flagger.cpp"],
     [("amplitude, broadband and fluctuation scores", "flagger_dynamic_threshold"),
      ("medians and deviations", "median_calc, median_dev_calc, modified_zscore")],
     "oracle: independent re-statement of the algorithm (including its deviation of fluctuations about the amplitude median); "
     "scores within 1e-9 of a threshold are not judged; bounds: tables up to 35 samples",
     state=[("transit score", "recursive average of amplitude changes per channel", "flagger_dynamic_threshold"),
            ("median history", "medians of earlier times", "flagger_dynamic_threshold")])

prop("Q01", "Tiling assigns every visibility to exactly the tiles its footprint touches",
     "Every visibility whose kernel footprint lies inside the grid is counted once in each tile its footprint overlaps and in no "
     "other, every other visibility is counted as skipped, and the offsets are the running totals of the counts. Sorting and "
     "indexing then place into each tile's range exactly the visibilities counted there, each with its own coordinates, value, "
     "weight or index and tile label, and advance the offsets accordingly.",
     ["inputs", "configurations"], "every grid cell, the cells beyond each edge and rounded positions for u and v; grid and tile "
     "sizes, supports, one to eight visibilities, double and single precision",
     "The tests that exist need a GPU library and are not run; random positions rarely meet tile edges.",
     [VIS + "sdp_tiled_functions.cpp"],
     [("tile ranges and counts", "TILE_RANGES, sdp_tile_count_simple, sdp_prefix_sum"),
      ("sorting", "sdp_bucket_sort_simple, tiled_indexing")],
     "oracle: integer interval overlap; the order within a tile is not prescribed; one known finding (tiles beyond the counted "
     "ones); bounds: grids up to 64 cells, tile sizes that are powers of two")

prop("R01", "Phase rotation applies the exact rotation and phase of each baseline and channel",
     "For every pair of phase centres, including the poles and right ascensions more than a turn apart, rotated coordinates are the "
     "documented rotation of each baseline by itself, preserving its length, and each rotated visibility is its own input times the "
     "unit phase of the new centre's direction cosines at that baseline and channel frequency, the same for each polarisation. "
     "Inputs are unchanged.",
     ["inputs", "configurations"], "all pairs of eight phase centres, unit-vector and general coordinates, shapes with one to "
     "several times, baselines, channels and polarisations, both precisions, frequency steps of either sign",
     "Tests compare one pair of centres with the same formula in Python.",
     [VIS + "sdp_phase_rotate.cpp"], [("rotation matrix and phase", "sdp_phase_rotate_uvw, sdp_phase_rotate_vis")],
     "oracle: long-double geometry; the documented rotation is about two axes only, which is not the exact rotation between "
     "arbitrary centres (DESIGN.md); bounds: listed centres and shapes")

prop("D01", "Predicted visibilities equal the direct Fourier sum over the components",
     "Every predicted visibility is the sum over all components of their complex flux for that channel and polarisation times the "
     "phase of the component's direction at that baseline and channel, to within rounding of the output precision, for every "
     "shape including no components at all. Previous contents of the output do not matter and inputs are unchanged.",
     ["inputs", "configurations"], "every single component, channel and polarisation as a basis plus all together, both versions, "
     "shapes, output precisions, direction sets, baseline lengths and frequency steps of either sign",
     "Tests use one shape and random values with a tolerance.",
     [VIS + "sdp_dft.cpp"], [("direct sums", "dft_point_v00, dft_point_v01")],
     "linearity in the fluxes makes the basis complete for each geometry; oracle: long-double sum; bounds: listed shapes")

prop("U02", "Custom degridding reads the kernel-weighted grid cells of each visibility",
     "Each visibility of one baseline, time, channel and polarisation is the sum, over the grid cells and w planes of its kernel's "
     "footprint, of the grid value times the oversampled kernel values chosen by its own rounded position, conjugated if asked for. "
     "Visibilities whose footprint leaves the grid are left as they were, and no memory outside the arrays is read, wherever the "
     "visibility lies in u, v or w.",
     ["inputs", "configurations"], "every oversampled position of u crossed with every one of v on grids of several (unequal) sizes, "
     "every residue of w including far and negative ones, kernel sizes 1-5, oversamplings 1-4, planes 1-4, shapes and frequency steps",
     "The test uses one random set of positions on a square grid with non-negative w.",
     [GD + "sdp_degrid_uvw_custom.cpp"], [("positions and kernel offsets", "sub_grid_position, degrid_cpu"),
                                          ("kernel sums", "degrid_uvw_custom")],
     "oracle: long-double sum with hashed grid and kernels; positions within 1e-6 of a rounding tie are not judged; bounds: grids "
     "up to 12 cells, kernels up to 5")

prop("B01", "Element beams equal their closed-form patterns in every direction",
     "The dipole pattern and the sum of spherical waves are evaluated, for every direction, length or order and element rotation, to "
     "the value of their defining formulas within rounding, in each requested polarisation layout and precision, and each result is "
     "written only at its own output position given by the offset and stride. Directions below the horizon or otherwise undefined "
     "do not affect any other direction's result.",
     ["inputs", "configurations"], "a grid of directions including zenith, horizon and the axes; all maximum orders up to 7 with "
     "every single coefficient as a basis; dipole lengths, index offsets, strides, both precisions, scalar and full polarisation",
     "Tests compare a few directions of one dipole and one coefficient set, printing rather than checking part of the output.",
     [SB + "sdp_element_dipole.cpp", SB + "sdp_element_spherical_wave_harp.cpp"],
     [("dipole pattern", "sdp_element_beam_dipole"), ("spherical waves", "sdp_element_beam_spherical_wave_harp")],
     "oracle: long-double closed forms; linearity in the coefficients makes the basis complete for each direction; directions near "
     "a vanishing denominator are judged loosely; bounds: order <= 7")

prop("B02", "Station beams equal the weighted sum over elements for every configuration",
     "The beam of a station in each direction is the sum over its elements of the element's complex weight, the phase of its position "
     "in that direction at the given wavenumber and its own element pattern (or one if there are none), optionally divided by the "
     "number of elements, for scalar and fully polarised beams in both precisions. Results are written only at the positions given "
     "by the offset of the output, and inputs are unchanged.",
     ["inputs", "configurations"], "every combination of 2D and 3D positions, element beam index maps, normalisation, output offsets, "
     "scalar and polarised patterns, precisions and small counts of elements and directions",
     "Tests evaluate one random station without element beams' index maps, offsets or single precision.",
     [SB + "sdp_station.cpp"], [("weighted sums", "station_beam_scalar, station_beam_pol, sdp_station_beam_array_factor"),
                                ("index map and offsets", "sdp_station_beam")],
     "oracle: long-double sum; bounds: up to a few elements and directions")

prop("C01", "Hogbom CLEAN follows the algorithm to its limits for every image",
     "Every cycle adds the gain times the largest residual to the component at that pixel and subtracts the point spread function "
     "centred there with the same amplitude, until the largest residual is below the threshold or the cycle limit is reached, for "
     "every image, point spread function, gain, threshold, limit and precision. The residual therefore always equals the image "
     "minus the components' point spread functions, the sky model equals the components convolved with the centred clean beam plus "
     "the residual, and inputs are unchanged.",
     ["inputs", "histories"], "every 2x2 image over four values and every 3x3 image over two (quick) or three values, times point "
     "spread functions, gains, thresholds, limits, beam sizes and precisions, with every order of breaking ties; larger hashed images "
     "up to 13 pixels and 40 cycles",
     "The tests clean one simulated image and compare with the same loop in Python.",
     [CL + "sdp_hogbom_clean.cpp"], [("minor cycles", "sdp_hogbom_clean_cpu"), ("clean beam and restoration", "sdp_create_cbeam")],
     "oracle: set of all outcomes of the algorithm in exact dyadic arithmetic; one known finding (clean beams of even size displace "
     "the restored components by a pixel); bounds: images up to 13 pixels, 40 cycles",
     state=[("residual and components", "image left to clean and flux found", "sdp_hogbom_clean_cpu")])

prop("C02", "Multi-scale CLEAN follows the algorithm over every choice of scales",
     "Every cycle picks the scale and pixel with the highest residual smoothed to that scale relative to the scale's own response, adds "
     "the gain times that value of the scale's kernel to the components, and subtracts the corresponding smoothed point spread "
     "function from the residual of every scale, until the peak is below the threshold or the cycle limit is reached. The residual "
     "returned is that of the first scale, the sky model is the components convolved with the centred clean beam plus it, and inputs "
     "are unchanged.",
     ["inputs", "histories"], "all combinations of scale lists (one to three scales, with and without zero, any order), point spread "
     "functions, point sources and extended or edge structures, gains, thresholds, limits, beams, sizes and precisions",
     "The tests clean one simulated image with one scale list and compare with the same loop in Python.",
     [CL + "sdp_ms_clean_cornwell.cpp"], [("scaled images and coupling", "ms_clean_cornwell, sdp_create_scale_kern"),
                                          ("minor cycles", "ms_clean_cornwell")],
     "oracle: independent re-statement with direct convolutions; histories with near ties are not judged; known findings (even-sized "
     "kernels and clean beams displace their results); bounds: images up to 6 pixels, 9 cycles",
     state=[("residual per scale", "smoothed images left to clean", "ms_clean_cornwell")])

prop("E01", "A call made with an error status already set does nothing and keeps the status",
     "Every function that takes an error status returns at once when the status is already set: it keeps the first error, writes to "
     "no array, creates nothing and does not crash, whatever its other arguments are, including handles that an earlier failed "
     "call did not create. Sequences of calls may therefore check the status once, at their end.",
     ["inputs", "configurations"], "every public function that takes arrays, in both precisions, with every error code and every single deviation of "
     "an array (type, layout, size, dimensions, location, access), and chains of functions on handles that were not created",
     "Unit tests always start from a clear status, and do not try functions on handles that were not created.",
     [U + "sdp_errors.h", U + "sdp_mem.cpp", GD + "sdp_gridder_direct.cpp", GD + "sdp_gridder_wtower_uvw.cpp", FT + "sdp_fft.cpp", FT + "sdp_swiftly.cpp"],
     [("guards at the start of each function", "all public functions"), ("creators", "sdp_*_create*")],
     "one table of calls shared with E02; bounds: one deviating argument per call")

prop("E02", "Every argument is refused without effect or honoured, within memory bounds",
     "Every function that takes arrays accepts an array of another type, layout, shape, number of dimensions, location or access "
     "only if it handles it: it then gives the same result as for plain arrays, and otherwise it sets an error status and writes to "
     "no array. In no case does a call crash, run forever, change an input, read or write outside the arrays or touch memory "
     "on another device, also when values within the arrays or numeric parameters are unusable (negative, huge, zero, not finite).",
     ["inputs", "configurations"], "every public function that takes arrays, in both precisions; every array in turn with every other type, "
     "transposed and gapped layouts, every dimension smaller, larger, one or empty, other numbers of dimensions, GPU location, read-only; "
     "unusable elements and parameters; thorough: every pair of such deviations",
     "Unit tests try a few wrong arguments of a few functions, and cannot see accesses outside the arrays.",
     [U + "sdp_mem.cpp", U + "sdp_mem_view.h", GD + "sdp_gridder_utils.cpp", VIS + "sdp_tiled_functions.cpp", SB + "sdp_station.cpp", CL + "sdp_hogbom_clean.cpp"],
     [("argument checks", "sdp_mem_check_*, sdp_mem_check_and_view"), ("checks of each function", "all public functions")],
     "runs under AddressSanitizer and UndefinedBehaviorSanitizer with redzones around each array and inaccessible GPU memory; a run-time failure caused by "
     "values (not arguments) may leave outputs incomplete; in whole-image gridding the precision of the result is not compared across types; "
     "bounds: one small valid call per function, at most two deviations")

prop("A01", "Everything allocated is released, on every path and in every order of handles",
     "Every function releases all the memory it allocates for its own use, whether it succeeds, refuses its arguments or fails part of "
     "the way, and the function that destroys an object releases everything that object holds. Array data is released exactly when the "
     "last handle that owns it is released, whatever sequence of creating, wrapping, aliasing, copying, slicing, converting "
     "and adding references led there.",
     ["inputs", "configurations", "histories"], "the calls and deviations of the argument check (every public function, both precisions), with and without "
     "an earlier error; every creator with usable and unusable parameters; every sequence of 5 (quick) or 6 (thorough) operations on handles",
     "Unit tests do not see memory which is never released, and rarely run the failure paths.",
     [U + "sdp_mem.cpp", FT + "sdp_fft.cpp", FT + "sdp_swiftly.cpp", FT + "sdp_pswf.cpp", GD + "sdp_gridder_wtower_uvw.cpp", GD + "sdp_grid_wstack_wtower.cpp"],
     [("reference counts", "sdp_mem_free, sdp_mem_ref_inc, sdp_mem_ref_dec"), ("temporaries of each function", "all public functions")],
     "each call is made twice: the first fills caches kept on purpose (FFT plans), all allocations of the second must be gone at its end; double "
     "release and use after release are seen by AddressSanitizer; CPU memory only; allocations by worker threads are not tracked",
     state=[("ref_count, is_owner", "owners of the data", "struct sdp_Mem")])

prop("X01", "Results do not depend on thread number or schedule, and nothing races",
     "Every function gives the same result (up to rounding in sums) for any number of threads that are asked for or provided "
     "by the runtime, under every interleaving of those threads and every sharing out of loop iterations and tasks. No two threads "
     "access the same memory at the same time when one of them writes, no thread waits for ever, and every task and visibility is "
     "processed exactly once.",
     ["schedules", "configurations"], "every public function with a parallel region (both precisions), and whole-image gridding and degridding "
     "with several sub-grids, several w-planes and sub-grids split into chunks of rows; teams of 2, 3 and (thorough) 4 threads, fewer "
     "threads than asked for; every schedule of each parallel region up to 1-2 (quick) / 2-3 (thorough) preemptions",
     "Unit tests see only the schedules that happen to occur on one machine, on problems too small to be shared out, and cannot see races.",
     [GD + "sdp_grid_wstack_wtower.cpp", GD + "sdp_gridder_wtower_uvw.cpp", GD + "sdp_gridder_utils.cpp", VIS + "sdp_flagger.cpp", SB + "sdp_station.cpp",
      FT + "sdp_fft.cpp", U + "sdp_thread_support.cpp"],
     [("task queue and sub-grid accumulation", "pick_task, sdp_grid_wstack_wtower_grid_all, sdp_grid_wstack_wtower_degrid_all"),
      ("parallel loops, reductions and counters", "every OpenMP parallel region of the library")],
     "stateless exploration of the real code, compiled with OpenMP and ThreadSanitizer instrumentation but linked to our own runtime for both: a scheduler "
     "with one choice per synchronisation operation and a happens-before race detector on every access; one parallel region at a time is "
     "explored (regions are separated by joins); outer pixels of gridded images, where the correction amplifies rounding, are not compared",
     state=[("task list", "chunks and rows left per sub-grid", "struct sdp_SubgridTask")])

prop("X02", "Calls made at the same time from several threads do not disturb each other",
     "Any two functions may be called at the same time from two threads of a program, on different outputs and work objects, and may read the "
     "same inputs. Each gives the result it gives alone, and the library keeps no shared state that the two calls could race on.",
     ["schedules", "inputs"], "every unordered pair of public functions that take arrays (quick: double precision; thorough: both), each function also "
     "with itself on shared inputs; both orders, thorough: every interleaving with one preemption at a synchronisation operation",
     "Unit tests never call the library from two threads.",
     [U + "sdp_mem.cpp", FT + "sdp_fft.cpp", GD + "sdp_gridder_utils.cpp", GD + "sdp_gridder_wtower_uvw.cpp", VIS + "sdp_flagger.cpp", SB + "sdp_station.cpp"],
     [("no state outside arguments and work objects", "all public functions")],
     "same runtime as for thread schedules: the race detector treats the two calls as unordered, so a conflicting access is found whatever the "
     "schedule; random filling, which uses the C library's generator, is left out")

prop("A02", "A failed request for memory is reported and leaves nothing behind",
     "When any one of a function's requests for array memory cannot be met, the function reports an error (or still gives the right result), does "
     "not crash, releases everything it had obtained and leaves its inputs as they were. Creation functions refuse in the same way, and the same "
     "call made again with enough memory gives the usual result.",
     ["inputs", "configurations", "fault_sequences"], "every public function that takes arrays (both precisions) and every creation function, with the 1st, 2nd, ... "
     "last request for array memory of the call failing, one at a time",
     "Unit tests never run out of memory, so none of these paths is executed.",
     [U + "sdp_mem.cpp", NF + "sdp_fft_convolution.cpp", CL + "sdp_hogbom_clean.cpp", CL + "sdp_ms_clean_cornwell.cpp", FT + "sdp_pswf.cpp", FT + "sdp_swiftly.cpp",
      GD + "sdp_gridder_wtower_uvw.cpp", GD + "sdp_gridder_direct.cpp", GD + "sdp_grid_wstack_wtower.cpp"],
     [("requests for array data", "sdp_mem_create, sdp_mem_create_copy, sdp_mem_copy_contents"), ("failure paths", "all functions with working arrays")],
     "the requests are intercepted at link time; only requests for array data fail (not those for small handles, nor those of the C++ library); one "
     "failure per call; CPU only; the contents of outputs after an error are not judged")

prop("T01", "Timers account for exactly the time that passed while they were running",
     "The elapsed time of a timer is the time between its starts and pauses, whatever happens to the date of the system meanwhile. In a tree of named timers, "
     "every sequence of entering, leaving and switching, from several threads and sets of slots, adds each interval to exactly the timers that were "
     "running, and the report lists every timer once, below its parent, with its own total and its share.",
     ["histories"], "every sequence of up to 6-7 operations on one timer and of 5-7 operations on a tree with 3 names, 2 threads and sets of slots, "
     "with a clock step (including none, and a date that is set back) before every operation",
     "The test sleeps for a moment and prints a report; it asserts nothing about values, and cannot move the clock.",
     [U + "sdp_timer.cpp"], [("elapsed time", "sdp_timer_elapsed, sdp_timer_pause, sdp_timer_resume"), ("tree and report", "sdp_timers_push, sdp_timers_pop, sdp_timers_create_set, sdp_timers_report")],
     "virtual clock: the C library's clock calls are replaced, so time passes only where the exploration says; oracle: a reference tree of timers; the "
     "report is parsed and compared; restarting a timer that is running is not specified; the spread over threads is only checked to be in range",
     state=[("current node, per-slot timers", "time accounting", "struct sdp_Timers")])

prop("E03", "Array checks and views accept exactly the arrays they describe",
     "Each check of an array's type, place, shape, layout or access reports an error if and only if the array differs, with the right code, and keeps an "
     "earlier error. A view is given only for the matching type, dimensions and place, and its elements are the array's elements at the same "
     "indices, whatever the strides.",
     ["inputs", "configurations"], "arrays of every type, 0-4 dimensions, small sizes, contiguous, transposed and gapped layouts, read-only or not, in either memory "
     "space; each check with matching and all single deviating expectations, with and without an earlier error",
     "Tests use the checks on arrays that pass them.",
     [U + "sdp_mem.cpp", U + "sdp_mem_view.h", U + "sdp_data_model_checks.c"],
     [("checks", "sdp_mem_check_*, sdp_data_model_check_*, sdp_data_model_get_*_metadata"), ("views", "sdp_mem_check_and_view, struct sdp_MemViewCpu")],
     "GPU arrays are descriptors only (no memory is touched); whether scalars and size-one dimensions with odd strides count as contiguous, and integer "
     "weights, are not judged")

prop("U01", "Log messages obey the level filter and have one well-formed line each",
     "A message is written if and only if its level reaches the threshold set in the environment, whatever was logged before. Each written message is one "
     "line holding version, the UTC time of one instant, the level's name, the place in the code and the text formatted as by printf, unharmed by its length or content.",
     ["inputs", "configurations", "histories"], "all level names (and unset or unknown ones) times message kinds (plain, formatted, 3000 characters, empty), clock instants around the turn of a "
     "second, day, leap day and century, and every sequence of one (quick) or two (thorough) first levels followed by all levels",
     "No unit test looks at log output.",
     [U + "sdp_logging.c", U + "sdp_logging.h"], [("filter", "log_filter"), ("line", "sdp_log_message")],
     "each environment in a child process with a virtual clock; for unknown values of the environment variable the threshold is left open; the first "
     "message from two threads at once is not explored")

prop("U03", "Sky coordinates keep what they were given",
     "A coordinate returns the type, values and epoch last given to it, independent of the caller's strings and of other coordinates, in every order of "
     "creating, changing and releasing. Asking for a dimension that does not exist, or for anything of a missing handle, gives zero or nothing and does no harm.",
     ["histories", "inputs"], "every sequence of 3 (quick) or 4 (thorough) operations on two coordinates with extreme, infinite, signed-zero and not-a-number values, and type strings "
     "from empty to 1000 characters",
     "One test creates one coordinate.",
     [U + "sdp_sky_coord.c"], [("coordinate object", "sdp_sky_coord_create, sdp_sky_coord_set_epoch, sdp_sky_coord_free")],
     "runs under AddressSanitizer", state=[("two live coordinates", "independence", "struct sdp_SkyCoord")])

PY = "src/ska_sdp_func/"
prop("N01", "The Python layer releases every library object once and keeps used memory",
     "Whatever sequence of creating, using, copying, sharing and dropping Python objects is run, also with failing calls, every object the library "
     "made for them is released exactly once, after its last use, and never used afterwards. Memory which a library object uses stays as long as the "
     "object does, and no longer.",
     ["histories", "fault_sequences"], "every sequence of up to 4 (quick) or 5 (thorough) operations on two variables holding array handles, sky coordinates or plans of each kind, including creations "
     "and calls which fail, plus a final release in both orders",
     "Tests make an object, use it and let it go; a wrong release shows only in other orders, and then as a rare crash.",
     [PY + "utility/mem.py", PY + "utility/sky_coord.py", PY + "utility/struct_wrapper.py", PY + "utility/lib.py", PY + "fourier_transforms/fft.py",
      PY + "fourier_transforms/swiftly.py", PY + "grid_data/gridder_direct.py", PY + "grid_data/gridder_wtower_uvw.py", PY + "grid_data/gridder_uvw_es_fft.py"],
     [("handles of library objects", "StructWrapper, Mem, SkyCoord"), ("plans", "Fft, Swiftly, GridderDirect, GridderWtowerUVW, GridderUvwEsFft")],
     "the library is replaced by a stand-in with the same functions, which records every call and object and reports what it is told to; objects made "
     "by a call that also reports an error are not judged; GPU arrays (cupy) are not available here",
     state=[("two variables", "live objects and arrays", "StructWrapper")])

prop("N02", "Python calls give the library their arguments, and raise for every error",
     "Every Python function and method gives the library function of its name exactly the arguments it was given, by position, by name or by default: each array with its address, type, "
     "shape, strides and write protection, each number and flag unchanged. An error reported by the library, or an argument which cannot be described to it, raises an "
     "exception; otherwise none is raised, and values returned by the library come back unchanged.",
     ["inputs", "configurations", "fault_sequences"], "every public function, method and property, with every array of every kind (types, layouts, read-only, empty, 0-6 dimensions, unsupported), every number at "
     "its extremes, every way of naming or omitting arguments, and every status of the library function or of the handles made for it",
     "Tests call each function with one or two sound sets of arguments; an argument mixed up with another of equal value, or an error not raised, goes unseen.",
     [PY + "utility/mem.py", PY + "utility/error_checking.py", PY + "utility/lib.py", PY + "grid_data/gridder_utils.py", PY + "visibility/weighting.py",
      PY + "visibility/phase_rotate.py", PY + "visibility/dft.py", PY + "visibility/tiled_functions.py", PY + "clean/hogbom_clean.py", PY + "station_beam/station.py"],
     [("array handles", "Mem.from_param"), ("error checking", "error_checking"), ("functions", "all modules of the Python package")],
     "the library is replaced by a stand-in which checks and records what it gets and reports what it is told to; integers beyond the range of the "
     "C type are not judged; what the library does with its arguments is the subject of the other properties")

prop("N03", "Threads may use the Python layer for the first time at once",
     "Several threads which make their first calls of the same or of different functions, or their first objects, at the same time each get the result, the error and "
     "the effect that they would have got alone, and none waits for ever. Nothing is left behind that spoils later calls.",
     ["schedules"], "every schedule of two or three threads with up to two turns lost at any line of the lookup of library functions, or one at any line "
     "of the Python layer (thorough: two anywhere, three in the lookup, and at any instruction of it), for ten sets of calls, some of which fail",
     "Tests are single-threaded; each function is looked up once per process, so the window exists only once.",
     [PY + "utility/lib.py", PY + "utility/error_checking.py", PY + "utility/mem.py", PY + "utility/struct_wrapper.py"],
     [("lookup at first use", "Lib._wrap_func, Lib.handle"), ("error checking", "error_checking")],
     "a controlled scheduler runs one thread at a time in a fresh process per schedule and moves the turn at line or instruction events; the library is "
     "the recording stand-in; threads inside the library itself are the subject of other properties",
     state=[("lookup table", "shared by all threads", "class Lib")])

prop("N04", "The ranges of baseline coordinates cover every coordinate",
     "The largest coordinate in wavelengths is the largest absolute u or v of any baseline and time, and the range of w runs from the smallest to the largest absolute w, each at the "
     "frequency that makes it extreme, for every position of the extreme value, sign and type of array. The coordinates are left as they were.",
     ["inputs"], "arrays of up to 4 baselines and 1-3 channels in both types with the extreme value at every place and coordinate",
     "Tests use random coordinates, whose u and v have nearly the same range.",
     [PY + "visibility/weighting.py", PY + "grid_data/gridder_uvw_es_fft.py"],
     [("ranges", "get_uv_range, GridderUvwEsFft.get_w_range")],
     "compared to an independent maximum over all places; frequencies are ascending")
