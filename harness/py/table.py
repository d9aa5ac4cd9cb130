"""Every public Python function: its documented parameters, and what the C function should be given.

Each entry: (module, python name, C function, parameters, C arguments, what is returned).
Parameters: "name:kind" with kinds m (array, shape in brackets), i, l, d, b (bool) as for the C function, o (None or a
value), s (sky coordinate), I (ctypes int), t (tuple of three ints); "=" marks a default.
C arguments: names of parameters, or functions of the parameters.
"""

U = "ska_sdp_func."


def F(mod, py, c, params, cargs, ret=None, **kw):
    return dict(mod=U + mod, py=py, c=c, params=[_par(p) for p in params.split()],
                cargs=[a if callable(a) else a for a in (cargs.split() if isinstance(cargs, str) else cargs)],
                ret=ret, **kw)


def _par(p):
    name, rest = p.split(":", 1)
    default = None
    has = "=" in rest
    if has:
        rest, default = rest.split("=")
        default = eval(default)
    shape = (2, 3)
    if "[" in rest:
        rest, sh = rest[:-1].split("[")
        shape = tuple(int(x) for x in sh.split(",") if x)
    return dict(name=name, kind=rest, shape=shape, has_default=has, default=default)


# how the objects are made
CLASSES = {
    "Fft": F("fourier_transforms.fft", "Fft", "sdp_fft_create", "input_data:m output_data:m num_dims_fft:i is_forward:b",
             "input_data output_data num_dims_fft is_forward", "Fft"),
    "ExampleA": F("examples", "FunctionExampleA", "sdp_function_example_a_create_plan", "par_a:i par_b:i par_c:f", "par_a par_b par_c",
                  "ExampleA"),
    "EsFft": F("grid_data", "GridderUvwEsFft", "sdp_gridder_uvw_es_fft_create_plan",
               "uvw:m[4,3] freq_hz:m[2] vis:m weight:m dirty_image:m pixel_size_x_rad:d pixel_size_y_rad:d epsilon:d do_w_stacking:B",
               ["uvw", "freq_hz", "vis", "weight", "dirty_image", "pixel_size_x_rad", "pixel_size_y_rad", "epsilon",
                lambda e: e["_wrange"][0], lambda e: e["_wrange"][1], "do_w_stacking"], "EsFft"),
    "Direct": F("grid_data", "GridderDirect", "sdp_gridder_direct_create",
                "image_size:i subgrid_size:i theta:d w_step:d shear_u:d shear_v:d support:i",
                "image_size subgrid_size theta w_step shear_u shear_v support", "Direct"),
    "Wtower": F("grid_data", "GridderWtowerUVW", "sdp_gridder_wtower_uvw_create",
                "image_size:i subgrid_size:i theta:d w_step:d shear_u:d shear_v:d support:i oversampling:i w_support:i w_oversampling:i",
                "image_size subgrid_size theta w_step shear_u shear_v support oversampling w_support w_oversampling", "Wtower"),
    "Swiftly": F("fourier_transforms.swiftly", "Swiftly", "sdp_swiftly_create", "image_size:l yN_size:l xM_size:l W:d",
                 "image_size yN_size xM_size W", "Swiftly"),
}
FREE = {"Fft": "sdp_fft_free", "ExampleA": "sdp_function_example_a_free_plan", "EsFft": "sdp_gridder_uvw_es_fft_free_plan",
        "Direct": "sdp_gridder_direct_free", "Wtower": "sdp_gridder_wtower_uvw_free", "Swiftly": "sdp_swiftly_free"}

OFF = [lambda e: e["subgrid_offset"][0], lambda e: e["subgrid_offset"][1], lambda e: e["subgrid_offset"][2]]


def size(n):
    return lambda e: e[n].size


def M(kind, py, c, params, cargs, ret=None, **kw):
    return dict(F("", py, c, params, cargs, ret, **kw), cls=kind)


FUNCS = [
    F("visibility.tiled_functions", "bucket_sort", "sdp_bucket_sort",
      "uvw:m freqs:m vis:m weights:m grid_size:i tile_size_u:l tile_size_v:l cell_size_rad:d support:l sorted_uu:m sorted_vv:m "
      "sorted_weight:m sorted_tile:m sorted_vis:m tile_offsets:m",
      "uvw freqs vis weights grid_size tile_size_u tile_size_v cell_size_rad support sorted_uu sorted_vv sorted_weight sorted_tile "
      "sorted_vis tile_offsets"),
    F("visibility.tiled_functions", "count_and_prefix_sum", "sdp_count_and_prefix_sum",
      "uvw:m freqs:m vis:m grid_size:i tile_size_u:l tile_size_v:l cell_size_rad:d support:l num_visibilities:I tile_offsets:m "
      "num_points_in_tiles:m num_skipped:m",
      "uvw freqs vis grid_size tile_size_u tile_size_v cell_size_rad support num_visibilities tile_offsets num_points_in_tiles num_skipped"),
    F("visibility.tiled_functions", "tiled_indexing", "sdp_tiled_indexing",
      "uvw:m freqs:m grid_size:i tile_size_u:l tile_size_v:l cell_size_rad:d support:l num_channels:l num_baselines:l num_times:l "
      "sorted_tile:m sorted_uu:m sorted_vv:m sorted_vis_index:m tile_offsets:m",
      "uvw freqs grid_size tile_size_u tile_size_v cell_size_rad support num_channels num_baselines num_times sorted_tile sorted_uu "
      "sorted_vv sorted_vis_index tile_offsets"),
    F("visibility.opt_weighting", "optimised_indexed_weighting", "sdp_optimised_indexed_weighting",
      "uvw:m vis:m weights:m robust_param:d grid_size:i cell_size_rad:d support:l num_visibilities:I sorted_tile:m sorted_uu:m "
      "sorted_vv:m sorted_vis_index:m tile_offsets:m num_points_in_tiles:m output_weights:m",
      "uvw vis weights robust_param grid_size cell_size_rad support num_visibilities sorted_tile sorted_uu sorted_vv sorted_vis_index "
      "tile_offsets num_points_in_tiles output_weights"),
    F("visibility.opt_weighting", "optimized_weighting", "sdp_optimized_weighting",
      "uvw:m freqs:m vis:m weights:m robust_param:d grid_size:i support:l sorted_uu:m sorted_vv:m sorted_weight:m sorted_tile:m "
      "tile_offsets:m num_points_in_tiles:m output_weights:m",
      "uvw freqs vis weights robust_param grid_size support sorted_uu sorted_vv sorted_weight sorted_tile tile_offsets "
      "num_points_in_tiles output_weights"),
    F("grid_data", "degrid_uvw_custom", "sdp_degrid_uvw_custom",
      "grid:m uvw:m uv_kernel:m w_kernel:m theta:d wstep:d channel_start_hz:d channel_step_hz:d conjugate:b vis:m",
      "grid uvw uv_kernel w_kernel theta wstep channel_start_hz channel_step_hz conjugate vis"),
    F("visibility", "dft_point_v00", "sdp_dft_point_v00", "source_directions:m source_fluxes:m uvw_lambda:m vis:m",
      "source_directions source_fluxes uvw_lambda vis"),
    F("visibility", "dft_point_v01", "sdp_dft_point_v01",
      "source_directions:m source_fluxes:m uvw:m channel_start_hz:d channel_step_hz:d vis:m",
      "source_directions source_fluxes uvw channel_start_hz channel_step_hz vis"),
    F("station_beam", "dipole", "sdp_element_beam_dipole",
      "theta_rad:m[5] phi_rad:m freq_hz:d dipole_length_m:d stride_element_beam:i index_offset_element_beam:i element_beam:m",
      [size("theta_rad"), "theta_rad", "phi_rad", "freq_hz", "dipole_length_m", "stride_element_beam", "index_offset_element_beam",
       "element_beam"]),
    F("station_beam", "spherical_wave_harp", "sdp_element_beam_spherical_wave_harp",
      "theta_rad:m[5] phi_x_rad:m phi_y_rad:m l_max:i coeffs:m index_offset_element_beam:i element_beam:m",
      [size("theta_rad"), "theta_rad", "phi_x_rad", "phi_y_rad", "l_max", "coeffs", "index_offset_element_beam", "element_beam"]),
    F("station_beam", "aperture_array", "sdp_station_beam_aperture_array",
      "wavenumber:d element_weights:m element_x:m element_y:m element_z:m point_x:m[5] point_y:m point_z:m element_beam_index:m "
      "element_beam:m station_beam:m normalise:b=True eval_x:b=True eval_y:b=True",
      ["wavenumber", "element_weights", "element_x", "element_y", "element_z", lambda e: 0, size("point_x"), "point_x", "point_y",
       "point_z", "element_beam_index", "element_beam", lambda e: 0, "station_beam", "normalise", "eval_x", "eval_y"]),
    F("numeric_functions", "fft_convolution", "sdp_fft_convolution", "in1:m in2:m out:m", "in1 in2 out"),
    F("fourier_transforms", "padded_fft_size", "sdp_fft_padded_size", "num:i padding_factor:d", "num padding_factor", "int"),
    F("visibility", "flagger_dynamic_threshold", "sdp_flagger_dynamic_threshold",
      "vis:m flags:m alpha:d threshold_magnitudes:d threshold_variations:d threshold_broadband:d sampling_step:i window:i "
      "window_median_history:i",
      "vis flags alpha threshold_magnitudes threshold_variations threshold_broadband sampling_step window window_median_history"),
    F("examples", "vector_add", "sdp_vector_add", "input_a:m input_b:m output:m", "input_a input_b output"),
    F("grid_data", "wstack_wtower_degrid_all", "sdp_grid_wstack_wtower_degrid_all",
      "image:m freq0_hz:d dfreq_hz:d uvw:m subgrid_size:i theta:d w_step:d shear_u:d shear_v:d support:i oversampling:i w_support:i "
      "w_oversampling:i subgrid_frac:d w_tower_height:d verbosity:i vis:m num_threads:o=None",
      ["image", "freq0_hz", "dfreq_hz", "uvw", "subgrid_size", "theta", "w_step", "shear_u", "shear_v", "support", "oversampling",
       "w_support", "w_oversampling", "subgrid_frac", "w_tower_height", "verbosity", "vis", lambda e: e["num_threads"] or 0]),
    F("grid_data", "wstack_wtower_grid_all", "sdp_grid_wstack_wtower_grid_all",
      "vis:m freq0_hz:d dfreq_hz:d uvw:m subgrid_size:i theta:d w_step:d shear_u:d shear_v:d support:i oversampling:i w_support:i "
      "w_oversampling:i subgrid_frac:d w_tower_height:d verbosity:i image:m num_threads:o=None",
      ["vis", "freq0_hz", "dfreq_hz", "uvw", "subgrid_size", "theta", "w_step", "shear_u", "shear_v", "support", "oversampling",
       "w_support", "w_oversampling", "subgrid_frac", "w_tower_height", "verbosity", "image", lambda e: e["num_threads"] or 0]),
    F("grid_data", "clamp_channels_single", "sdp_gridder_clamp_channels_single",
      "uvws:m dim:i freq0_hz:d dfreq_hz:d start_ch_in:m end_ch_in:m min_u:d max_u:d start_ch_out:m end_ch_out:m start_row:l=-1 "
      "end_row:l=-1",
      "uvws dim freq0_hz dfreq_hz start_ch_in end_ch_in min_u max_u start_ch_out end_ch_out start_row end_row"),
    F("grid_data", "clamp_channels_uv", "sdp_gridder_clamp_channels_uv",
      "uvws:m freq0_hz:d dfreq_hz:d start_ch_in:m end_ch_in:m min_u:d max_u:d min_v:d max_v:d start_ch_out:m end_ch_out:m "
      "start_row:l=-1 end_row:l=-1",
      "uvws freq0_hz dfreq_hz start_ch_in end_ch_in min_u max_u min_v max_v start_ch_out end_ch_out start_row end_row"),
    F("grid_data", "determine_max_w_tower_height", "sdp_gridder_determine_max_w_tower_height",
      "subgrid_size:i theta:d fov:d w_step:d support:i oversampling:i w_support:i w_oversampling:i image_size:o=None shear_u:d=0.0 "
      "shear_v:d=0.0 subgrid_frac:d=2.0/3.0 num_samples:i=3 target_err:O=None",
      [lambda e: e["image_size"] or 2 * e["subgrid_size"], "subgrid_size", "theta", "w_step", "shear_u", "shear_v", "support",
       "oversampling", "w_support", "w_oversampling", "fov", "subgrid_frac", "num_samples", lambda e: e["target_err"] or 0.0], "double"),
    F("grid_data", "determine_w_step", "sdp_gridder_determine_w_step",
      "theta:d fov:d shear_u:d=0.0 shear_v:d=0.0 x_0:O=None",
      ["theta", "fov", "shear_u", "shear_v", lambda e: e["x_0"] or 0.0], "double"),
    F("grid_data", "make_kernel", "sdp_gridder_make_kernel", "window:m kernel:m", "window kernel"),
    F("grid_data", "make_pswf_kernel", "sdp_gridder_make_pswf_kernel", "support:i kernel:m", "support kernel"),
    F("grid_data", "make_w_pattern", "sdp_gridder_make_w_pattern",
      "subgrid_size:i theta:d shear_u:d shear_v:d w_step:d w_pattern:m", "subgrid_size theta shear_u shear_v w_step w_pattern"),
    F("grid_data", "rms_diff", "sdp_gridder_rms_diff", "array_a:m array_b:m", "array_a array_b", "double"),
    F("grid_data", "subgrid_add", "sdp_gridder_subgrid_add", "grid:m offset_u:i offset_v:i subgrid:m factor:d=1.0",
      "grid offset_u offset_v subgrid factor"),
    F("grid_data", "subgrid_cut_out", "sdp_gridder_subgrid_cut_out", "grid:m offset_u:i offset_v:i subgrid:m",
      "grid offset_u offset_v subgrid"),
    F("grid_data", "uvw_bounds_all", "sdp_gridder_uvw_bounds_all", "uvws:m freq0_hz:d dfreq_hz:d start_ch:m end_ch:m",
      ["uvws", "freq0_hz", "dfreq_hz", "start_ch", "end_ch", lambda e: "D1", lambda e: "D1"], "bounds"),
    F("clean", "hogbom_clean", "sdp_hogbom_clean",
      "dirty_img:m psf:m cbeam_details:m loop_gain:d threshold:d cycle_limit:i clean_model:m residual:m skymodel:m",
      "dirty_img psf cbeam_details loop_gain threshold cycle_limit clean_model residual skymodel"),
    F("clean", "ms_clean_cornwell", "sdp_ms_clean_cornwell",
      "dirty_img:m psf:m cbeam_details:m scale_list:m loop_gain:d threshold:d cycle_limit:i clean_model:m residual:m skymodel:m",
      "dirty_img psf cbeam_details scale_list loop_gain threshold cycle_limit clean_model residual skymodel"),
    F("visibility", "phase_rotate_uvw", "sdp_phase_rotate_uvw", "phase_centre_orig:s phase_centre_new:s uvw_in:m uvw_out:m",
      "phase_centre_orig phase_centre_new uvw_in uvw_out"),
    F("visibility", "phase_rotate_vis", "sdp_phase_rotate_vis",
      "phase_centre_orig:s phase_centre_new:s channel_start_hz:d channel_step_hz:d uvw:m vis_in:m vis_out:m",
      "phase_centre_orig phase_centre_new channel_start_hz channel_step_hz uvw vis_in vis_out"),
    F("visibility", "briggs_weights", "sdp_weighting_briggs",
      "uvw:m freq_hz:m max_abs_uv:d robust_param:d grid_uv:m input_weights:m output_weights:m",
      "uvw freq_hz max_abs_uv robust_param grid_uv input_weights output_weights"),
    F("visibility.weighting", "uniform_weights", "sdp_weighting_uniform",
      "uvw:m freq_hz:m max_abs_uv:d grid_uv:m input_weights:m output_weights:m",
      "uvw freq_hz max_abs_uv grid_uv input_weights output_weights"),
    # objects
    M("Fft", "exec", "sdp_fft_exec", "input_data:m output_data:m", "input_data output_data"),
    M("ExampleA", "exec", "sdp_function_example_a_exec", "output:m", "output"),
    M("EsFft", "grid_uvw_es_fft", "sdp_grid_uvw_es_fft", "uvw:m freq_hz:m vis:m weight:m dirty_image:m", "uvw freq_hz vis weight dirty_image"),
    M("EsFft", "ifft_grid_uvw_es", "sdp_ifft_degrid_uvw_es", "uvw:m freq_hz:m vis:m weight:m dirty_image:m",
      "uvw freq_hz vis weight dirty_image"),
    M("Direct", "degrid_subgrid", "sdp_gridder_direct_degrid",
      "subgrid_image:m subgrid_offset:t ch_count:n freq0_hz:d dfreq_hz:d uvws:m[4,3] start_chs:m end_chs:m vis:v=None",
      ["subgrid_image"] + OFF + ["freq0_hz", "dfreq_hz", "uvws", "start_chs", "end_chs", "vis"], "vis"),
    M("Direct", "degrid_correct", "sdp_gridder_direct_degrid_correct", "facet:m facet_offset_l:i facet_offset_m:i w_offset:i=0",
      "facet facet_offset_l facet_offset_m w_offset", "facet"),
    M("Direct", "grid_subgrid", "sdp_gridder_direct_grid",
      "vis:m[2,3] uvws:m start_chs:m end_chs:m ch_count:c freq0_hz:d dfreq_hz:d subgrid_image:m subgrid_offset:t",
      ["vis", "uvws", "start_chs", "end_chs", "freq0_hz", "dfreq_hz", "subgrid_image"] + OFF),
    M("Direct", "grid_correct", "sdp_gridder_direct_grid_correct", "facet:m facet_offset_l:i facet_offset_m:i w_offset:i=0",
      "facet facet_offset_l facet_offset_m w_offset", "facet"),
    M("Wtower", "degrid", "sdp_gridder_wtower_uvw_degrid",
      "subgrid_image:m subgrid_offset_u:i subgrid_offset_v:i subgrid_offset_w:i freq0_hz:d dfreq_hz:d uvws:m start_chs:m end_chs:m vis:m "
      "start_row:l=-1 end_row:l=-1",
      "subgrid_image subgrid_offset_u subgrid_offset_v subgrid_offset_w freq0_hz dfreq_hz uvws start_chs end_chs vis start_row end_row"),
    M("Wtower", "degrid_subgrid", "sdp_gridder_wtower_uvw_degrid",
      "subgrid_image:m subgrid_offset:t ch_count:n freq0_hz:d dfreq_hz:d uvws:m[4,3] start_chs:m end_chs:m vis:v=None start_row:l=-1 "
      "end_row:l=-1",
      ["subgrid_image"] + OFF + ["freq0_hz", "dfreq_hz", "uvws", "start_chs", "end_chs", "vis", "start_row", "end_row"], "vis"),
    M("Wtower", "degrid_correct", "sdp_gridder_wtower_uvw_degrid_correct", "facet:m facet_offset_l:i facet_offset_m:i w_offset:i=0",
      "facet facet_offset_l facet_offset_m w_offset", "facet"),
    M("Wtower", "grid", "sdp_gridder_wtower_uvw_grid",
      "vis:m uvw:m start_chs:m end_chs:m freq0_hz:d dfreq_hz:d subgrid_image:m subgrid_offset_u:i subgrid_offset_v:i subgrid_offset_w:i "
      "start_row:l=-1 end_row:l=-1",
      "vis uvw start_chs end_chs freq0_hz dfreq_hz subgrid_image subgrid_offset_u subgrid_offset_v subgrid_offset_w start_row end_row"),
    M("Wtower", "grid_subgrid", "sdp_gridder_wtower_uvw_grid",
      "vis:m[2,3] uvw:m start_chs:m end_chs:m ch_count:c freq0_hz:d dfreq_hz:d subgrid_image:m subgrid_offset:t start_row:l=-1 end_row:l=-1",
      ["vis", "uvw", "start_chs", "end_chs", "freq0_hz", "dfreq_hz", "subgrid_image"] + OFF + ["start_row", "end_row"]),
    M("Wtower", "grid_correct", "sdp_gridder_wtower_uvw_grid_correct", "facet:m facet_offset_l:i facet_offset_m:i w_offset:i=0",
      "facet facet_offset_l facet_offset_m w_offset", "facet"),
]
for _name, _two in (("prepare_facet", "facet:m prep_facet_out:m facet_offset:l"),
                    ("extract_from_facet", "prep_facet:m contribution_out:m subgrid_offset:l"),
                    ("add_to_subgrid", "contribution:m subgrid_image_inout:m facet_offset:l"),
                    ("add_to_subgrid_2d", "contribution:m subgrid_image_inout:m facet_offset0:l facet_offset1:l"),
                    ("finish_subgrid_inplace", "subgrid_inout:m subgrid_offset:l"),
                    ("finish_subgrid", "subgrid_image:m subgrid_out:m subgrid_offset:l"),
                    ("finish_subgrid_inplace_2d", "subgrid_inout:m subgrid_offset0:l subgrid_offset1:l"),
                    ("prepare_subgrid_inplace", "subgrid_inout:m subgrid_offset:l"),
                    ("prepare_subgrid_inplace_2d", "subgrid_inout:m subgrid_offset0:l subgrid_offset1:l"),
                    ("extract_from_subgrid", "subgrid_image:m contribution_out:m facet_offset:l"),
                    ("extract_from_subgrid_2d", "subgrid_image:m contribution_out:m facet_offset0:l facet_offset1:l"),
                    ("add_to_facet", "contribution:m facet_data_inout:m subgrid_offset:l"),
                    ("finish_facet", "facet_data:m facet_out:m facet_offset:l")):
    FUNCS.append(M("Swiftly", _name, "sdp_swiftly_" + _name, _two, " ".join(p.split(":")[0] for p in _two.split())))
for _n in ("image_size", "shear_u", "shear_v", "subgrid_size", "support", "theta", "w_step"):
    FUNCS.append(M("Direct", _n, "sdp_gridder_direct_" + _n, "", "", "prop"))
for _n in ("image_size", "oversampling", "shear_u", "shear_v", "subgrid_size", "support", "theta", "w_oversampling", "w_step", "w_support"):
    FUNCS.append(M("Wtower", _n, "sdp_gridder_wtower_uvw_" + _n, "", "", "prop"))
# finds its arguments by asking the gridder
FUNCS.append(F("grid_data", "find_max_w_tower_height", "sdp_gridder_determine_max_w_tower_height",
               "grid_kernel:w fov:d subgrid_frac:d=2.0/3.0 num_samples:i=3 target_err:O=None", [], "double", special="find_max"))
