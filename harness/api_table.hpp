// Table of the public functions that take arrays: one small valid call each, with the role of every argument.
#pragma once
#include "mc/arr.hpp"
#include "ska-sdp-func/clean/sdp_hogbom_clean.h"
#include "ska-sdp-func/clean/sdp_ms_clean_cornwell.h"
#include "ska-sdp-func/examples/sdp_function_example_a.h"
#include "ska-sdp-func/examples/sdp_vector_add.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#include "ska-sdp-func/fourier_transforms/sdp_swiftly.h"
#include "ska-sdp-func/grid_data/sdp_degrid_uvw_custom.h"
#include "ska-sdp-func/grid_data/sdp_grid_wstack_wtower.h"
#include "ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_grid_correct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_height.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#include "ska-sdp-func/numeric_functions/sdp_fft_convolution.h"
#include "ska-sdp-func/station_beam/sdp_element_dipole.h"
#include "ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.h"
#include "ska-sdp-func/station_beam/sdp_station.h"
#include "ska-sdp-func/visibility/sdp_dft.h"
#include "ska-sdp-func/visibility/sdp_flagger.h"
#include "ska-sdp-func/visibility/sdp_phase_rotate.h"
#include "ska-sdp-func/visibility/sdp_tiled_functions.h"
#include "ska-sdp-func/visibility/sdp_weighting.h"

namespace api {

inline int& paused() { static int n = 0; return n; }
struct Pause { Pause() { ++paused(); } ~Pause() { --paused(); } };  // preparation which isn't part of the call under test
inline sdp_SkyCoord* icrs(double lon, double lat) { Pause p; return sdp_sky_coord_create("icrs", lon, lat, 0); }

enum Role { IN, OUT, INOUT, SCRATCH };   // SCRATCH: an input the function is documented or allowed to use as work space
typedef std::function<cd(int64_t i, const Shape& s)> Fill;
struct Array { std::string name; Role role; sdp_MemType type; Shape shape; Fill fill; };
struct Scalar { std::string name; double value; std::vector<double> odd; };
typedef std::vector<sdp_Mem*> Mems;
typedef std::vector<double> Nums;
struct Call
{
    std::string name;
    std::vector<Array> arrays;
    std::vector<Scalar> scalars;
    std::function<void(const Mems&, const Nums&, sdp_Error*, Nums&)> run;   // last: values returned other than in arrays
    double tol = 1e-9;         // relative; loosened for single precision
    bool across_types = true;  // whether an accepted array of another type must give the same result
};

static const sdp_MemType F4 = SDP_MEM_FLOAT, F8 = SDP_MEM_DOUBLE, C8 = SDP_MEM_COMPLEX_FLOAT, C16 = SDP_MEM_COMPLEX_DOUBLE, I4 = SDP_MEM_INT;
static const sdp_MemType REAL[2] = {F8, F4}, CPLX[2] = {C16, C8};

// small multiples of 1/8: exact in every floating-point type
inline Fill dy(int salt, double scale = 1)
{
    return [=](int64_t i, const Shape&) { return cd(floor(8 * hashval(i, salt)) / 8 * scale, 0); };
}
inline Fill cdy(int salt, double scale = 1)
{
    return [=](int64_t i, const Shape&) { return cd(floor(8 * hashval(i, salt)) / 8 * scale, floor(8 * hashval(i, salt + 99)) / 8 * scale); };
}
inline Fill num(double v) { return [=](int64_t, const Shape&) { return cd(v, 0); }; }
inline Fill list(std::vector<double> v) { return [=](int64_t i, const Shape&) { return cd(v[i % v.size()], 0); }; }
// positive values
inline Fill pos(int salt, double scale = 1)
{
    return [=](int64_t i, const Shape&) { return cd((1 + floor(8 * fabs(hashval(i, salt)))) / 8 * scale, 0); };
}
// baseline coordinates in wavelengths at 299792458 Hz
inline Fill coords(int salt, double uv, double w)
{
    return [=](int64_t i, const Shape& s) { const int64_t n = s.empty() ? 3 : s.back(); return cd(floor(16 * hashval(i, salt)) / 16 * (n == 3 && i % 3 == 2 ? w : uv), 0); };
}
static const double C0 = 299792458.0;
static const std::vector<double> OFFS = {-1, -3, 1, 3, 1000, -1000, 2147483647., -2147483648.}, SIZES = {0, -1, 1, 3, 2147483647.},
    REALS = {0, -1, 1e-300, 1e300, INFINITY, -INFINITY, NAN}, FLAGS = {0, 1, 2, -1};

inline std::vector<Call>& table()
{
    static std::vector<Call> T;
    if (!T.empty()) return T;
    auto add = [&](const char* name, std::vector<Array> a, std::vector<Scalar> s,
                   std::function<void(const Mems&, const Nums&, sdp_Error*, Nums&)> run, double tol = 1e-9)
    {
        Call c; c.name = name; c.arrays = a; c.scalars = s; c.run = run; c.tol = tol; T.push_back(c);
    };
    static int P; // precision of the current block of entries
    for (P = 0; P < 2; ++P)
    {
        const sdp_MemType R = REAL[P], X = CPLX[P];
        const std::string sx = P ? "/single" : "";
        auto nm = [&](const char* n) { static std::vector<std::string*> keep; keep.push_back(new std::string(n + sx)); return keep.back()->c_str(); };

        // ---- examples
        add(nm("vector_add"), {{"a", IN, R, {5}, dy(1)}, {"b", IN, R, {5}, dy(2)}, {"out", OUT, R, {5}, num(7)}}, {},
            [](const Mems& m, const Nums&, sdp_Error* st, Nums&) { sdp_vector_add(m[0], m[1], m[2], st); });
        if (!P) add("function_example_a", {{"out", OUT, F4, {12}, num(7)}}, {{"a", 3, SIZES}, {"b", 4, SIZES}, {"c", 2.5, REALS}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&)
            {
                if (s[0] * s[1] > 1e6) return;
                sdp_Error s0 = SDP_SUCCESS;
                sdp_FunctionExampleA* p = sdp_function_example_a_create_plan((int) s[0], (int) s[1], (float) s[2], &s0);
                if (s0) { if (!*st) *st = s0; } else sdp_function_example_a_exec(p, m[0], st);
                sdp_function_example_a_free_plan(p);
            });
        // ---- operations on arrays
        add(nm("mem_set_value"), {{"data", OUT, X, {4, 5}, num(7)}}, {{"value", 3, {0, -1}}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_mem_set_value(m[0], (int) s[0], st); });
        add(nm("mem_scale_real"), {{"data", INOUT, X, {4, 5}, cdy(7)}}, {{"factor", 2, REALS}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_mem_scale_real(m[0], s[0], st); });
        add(nm("mem_clear_contents"), {{"data", OUT, X, {4, 5}, num(7)}}, {},
            [](const Mems& m, const Nums&, sdp_Error* st, Nums&) { sdp_mem_clear_contents(m[0], st); });
        add(nm("mem_clear_portion"), {{"data", INOUT, X, {20}, cdy(7)}}, {{"start", 3, {-1, 0, 10, 19, 20, 1e18, -1e18}}, {"count", 10, {-1, 0, 17, 18, 1e18, -1e18}}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&)
            {
                if (!sdp_mem_is_c_contiguous(m[0])) { if (!*st) *st = SDP_ERR_INVALID_ARGUMENT; return; } // a portion is a range of memory
                sdp_mem_clear_portion(m[0], (int64_t) s[0], (int64_t) s[1], st);
            });
        add(nm("mem_random_fill"), {{"data", SCRATCH, R, {4, 5}, num(7)}}, {},
            [](const Mems& m, const Nums&, sdp_Error* st, Nums& r)
            {
                sdp_mem_random_fill(m[0], st);
                if (*st) return;
                const int64_t n = sdp_mem_num_elements(m[0]) * (sdp_mem_is_complex(m[0]) ? 2 : 1); int bad = 0;
                for (int64_t i = 0; i < n; ++i) { const double v = sdp_mem_is_double(m[0]) ? ((double*) sdp_mem_data(m[0]))[i] : ((float*) sdp_mem_data(m[0]))[i]; if (!(v >= 0 && v <= 1)) ++bad; }
                r.push_back(bad);
            });
        add(nm("mem_convert_precision"), {{"data", IN, X, {4, 5}, cdy(7)}}, {{"type", (double) CPLX[1 - P], {(double) CPLX[P], (double) F4, (double) I4, 0, 77}}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums& r)
            {
                sdp_Mem* c = sdp_mem_convert_precision(m[0], (sdp_MemType) (int) s[0], st);
                const bool cx = sdp_mem_is_complex(c);
                if (!*st) for (int64_t i = 0; i < sdp_mem_num_elements(c); ++i)
                {
                    const char* p = (const char*) sdp_mem_data(c) + i * sdp_mem_type_size(sdp_mem_type(c));
                    for (int k = 0; k < 2; ++k) r.push_back(k && !cx ? 0 : sdp_mem_is_double(c) ? ((const double*) p)[k] : ((const float*) p)[k]);
                }
                sdp_mem_free(c);
            });
        add(nm("mem_create_copy"), {{"data", IN, X, {4, 5}, cdy(7)}}, {},
            [X](const Mems& m, const Nums&, sdp_Error* st, Nums& r)
            {
                sdp_Mem* c = sdp_mem_create_copy(m[0], SDP_MEM_CPU, st);
                if (!*st && sdp_mem_type(c) == X) for (int64_t i = 0; i < sdp_mem_num_elements(c) * 2; ++i)
                    r.push_back(sdp_mem_is_double(c) ? ((const double*) sdp_mem_data(c))[i] : ((const float*) sdp_mem_data(c))[i]);
                sdp_mem_free(c);
            });
        // ---- Fourier transforms
        add(nm("fft"), {{"in", IN, X, {2, 6}, cdy(3)}, {"out", OUT, X, {2, 6}, num(7)}}, {{"dims", 1, {0, -1, 2, 3, 4}}, {"forward", 1, FLAGS}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&)
            {
                sdp_Error s0 = SDP_SUCCESS;
                sdp_Fft* f = sdp_fft_create(m[0], m[1], (int) s[0], (int) s[1], &s0);
                if (s0) { if (!*st) *st = s0; } else sdp_fft_exec(f, m[0], m[1], st);
                sdp_fft_free(f);
            });
        add(nm("fft_norm"), {{"data", INOUT, X, {4, 6}, cdy(3)}}, {},
            [](const Mems& m, const Nums&, sdp_Error* st, Nums&) { sdp_fft_norm(m[0], st); });
        add(nm("fft_phase"), {{"data", INOUT, X, {4, 6}, cdy(3)}}, {},
            [](const Mems& m, const Nums&, sdp_Error* st, Nums&) { sdp_fft_phase(m[0], st); });
        add(nm("fft_exec_shift"), {{"data", INOUT, X, {4, 6}, cdy(3)}}, {{"norm", 1, FLAGS}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&)
            {
                sdp_Error s0 = SDP_SUCCESS;
                sdp_Fft* f = sdp_fft_create(m[0], m[0], 2, 1, &s0);
                if (s0) { if (!*st) *st = s0; } else sdp_fft_exec_shift(f, m[0], (int) s[0], st);
                sdp_fft_free(f);
            });
        add(nm("fft_exec (plan for other arrays)"), {{"in", IN, X, {2, 6}, cdy(3)}, {"out", OUT, X, {2, 6}, num(7)}}, {},
            [X](const Mems& m, const Nums&, sdp_Error* st, Nums&)
            {
                sdp_Error s0 = SDP_SUCCESS;
                Arr a(X, {2, 6}), b(X, {2, 6});
                sdp_Fft* f = sdp_fft_create(a.mem, b.mem, 2, 1, &s0);
                sdp_fft_exec(f, m[0], m[1], st);
                sdp_fft_free(f);
            });
        if (!P) add("generate_pswf", {{"out", OUT, F8, {7}, num(7)}}, {{"m", 0, {1, 2, 5}}, {"c", 9.5, {0, 1, 30}}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_generate_pswf((int) s[0], s[1], m[0], st); });
        if (!P) add("pswf_generate", {{"out", OUT, F8, {7}, num(7)}}, {{"size", 0, {7, -1, 1}}, {"end correction", 0, FLAGS}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&)
            {
                sdp_Pswf* p = sdp_pswf_create(0, 9.5);
                sdp_pswf_generate(p, m[0], (int) s[0], (int) s[1], st);
                sdp_pswf_free(p);
            });
        add(nm("fft_convolution"), {{"a", IN, X, {5, 5}, cdy(4)}, {"b", IN, X, {3, 3}, cdy(5)}, {"out", OUT, X, {5, 5}, num(7)}}, {},
            [](const Mems& m, const Nums&, sdp_Error* st, Nums&) { sdp_fft_convolution(m[0], m[1], m[2], st); });
        // ---- SwiFTly: image 32, facets 16, sub-grids 8, contributions 4 (double precision only)
        if (!P)
        {
            static sdp_Error s0 = SDP_SUCCESS;
            auto sw = [&](const char* name, Array a, Array b, int nb, int no, int kind)
            {
                std::vector<Array> v = {a}; if (nb) v.push_back(b);
                std::vector<Scalar> s; for (int i = 0; i < no; ++i) s.push_back({i ? "offset 1" : "offset 0", (double) (kind == 0 || kind == 2 || kind == 3 || kind == 8 || kind == 9 || kind == 11 ? 2 : 4), OFFS});
                add(name, v, s, [kind](const Mems& m, const Nums& o, sdp_Error* st, Nums&)
                {
                    s0 = SDP_SUCCESS;
                    sdp_SwiFTly* p = sdp_swiftly_create(32, 16, 8, 2.0, &s0);
                    if (s0) { if (!*st) *st = s0; return; }
                    const int64_t a = (int64_t) o[0], b = o.size() > 1 ? (int64_t) o[1] : 0;
                    switch (kind)
                    {
                    case 0: sdp_swiftly_prepare_facet(p, m[0], m[1], a, st); break;
                    case 1: sdp_swiftly_extract_from_facet(p, m[0], m[1], a, st); break;
                    case 2: sdp_swiftly_add_to_subgrid(p, m[0], m[1], a, st); break;
                    case 3: sdp_swiftly_add_to_subgrid_2d(p, m[0], m[1], a, b, st); break;
                    case 4: sdp_swiftly_finish_subgrid_inplace(p, m[0], a, st); break;
                    case 5: sdp_swiftly_finish_subgrid(p, m[0], m[1], a, st); break;
                    case 6: sdp_swiftly_finish_subgrid_inplace_2d(p, m[0], a, b, st); break;
                    case 7: sdp_swiftly_prepare_subgrid_inplace(p, m[0], a, st); break;
                    case 12: sdp_swiftly_prepare_subgrid_inplace_2d(p, m[0], a, b, st); break;
                    case 8: sdp_swiftly_extract_from_subgrid(p, m[0], m[1], a, st); break;
                    case 9: sdp_swiftly_extract_from_subgrid_2d(p, m[0], m[1], a, b, st); break;
                    case 10: sdp_swiftly_add_to_facet(p, m[0], m[1], a, st); break;
                    default: sdp_swiftly_finish_facet(p, m[0], m[1], a, st); break;
                    }
                    sdp_swiftly_free(p);
                });
            };
            sw("swiftly_prepare_facet", {"facet", IN, C16, {3, 14}, cdy(1)}, {"out", OUT, C16, {3, 16}, num(7)}, 1, 1, 0);
            sw("swiftly_extract_from_facet", {"facet", IN, C16, {3, 16}, cdy(1)}, {"out", OUT, C16, {3, 4}, num(7)}, 1, 1, 1);
            sw("swiftly_add_to_subgrid", {"contribution", IN, C16, {3, 4}, cdy(1)}, {"subgrid", INOUT, C16, {3, 8}, cdy(2)}, 1, 1, 2);
            sw("swiftly_add_to_subgrid_2d", {"contribution", IN, C16, {4, 4}, cdy(1)}, {"subgrid", INOUT, C16, {8, 8}, cdy(2)}, 1, 2, 3);
            sw("swiftly_finish_subgrid_inplace", {"subgrid", INOUT, C16, {3, 8}, cdy(1)}, {}, 0, 1, 4);
            sw("swiftly_finish_subgrid", {"image", IN, C16, {3, 8}, cdy(1)}, {"out", OUT, C16, {3, 6}, num(7)}, 1, 1, 5);
            sw("swiftly_finish_subgrid_inplace_2d", {"subgrid", INOUT, C16, {8, 8}, cdy(1)}, {}, 0, 2, 6);
            sw("swiftly_prepare_subgrid_inplace", {"subgrid", INOUT, C16, {3, 8}, cdy(1)}, {}, 0, 1, 7);
            sw("swiftly_prepare_subgrid_inplace_2d", {"subgrid", INOUT, C16, {8, 8}, cdy(1)}, {}, 0, 2, 12);
            sw("swiftly_extract_from_subgrid", {"image", IN, C16, {3, 8}, cdy(1)}, {"out", OUT, C16, {3, 4}, num(7)}, 1, 1, 8);
            sw("swiftly_extract_from_subgrid_2d", {"image", IN, C16, {8, 8}, cdy(1)}, {"out", OUT, C16, {4, 4}, num(7)}, 1, 2, 9);
            sw("swiftly_add_to_facet", {"contribution", IN, C16, {3, 4}, cdy(1)}, {"facet", INOUT, C16, {3, 16}, cdy(2)}, 1, 1, 10);
            sw("swiftly_finish_facet", {"facet", SCRATCH, C16, {3, 16}, cdy(1)}, {"out", OUT, C16, {3, 14}, num(7)}, 1, 1, 11);
        }
        // ---- clean
        {
            std::vector<Array> a = {{"dirty", IN, R, {6, 6}, dy(6)}, {"psf", IN, R, {12, 12}, [](int64_t i, const Shape&) { return cd(i == 78 ? 1 : floor(8 * hashval(i, 5)) / 64, 0); }},
                {"beam", IN, R, {4}, list({1, 2, 30, 5})}, {"model", OUT, R, {6, 6}, num(7)}, {"residual", OUT, R, {6, 6}, num(8)}, {"sky", OUT, R, {6, 6}, num(9)}};
            std::vector<Scalar> s = {{"gain", 0.25, {0, -1, NAN}}, {"threshold", 0.125, {-1e300, 1e300, NAN}}, {"cycles", 5, {0, -1, 1}}};
            add(nm("hogbom_clean"), a, s, [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_hogbom_clean(m[0], m[1], m[2], s[0], s[1], (int) s[2], m[3], m[4], m[5], st); }, 1e-6);
            a.insert(a.begin() + 3, {"scales", IN, I4, {2}, list({0, 4})});
            add(nm("ms_clean"), a, s, [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_ms_clean_cornwell(m[0], m[1], m[2], m[3], s[0], s[1], (int) s[2], m[4], m[5], m[6], st); }, 1e-6);
        }
        // ---- station beams
        for (int pol = 0; pol < 2; ++pol)
        {
            Array eb = {"beam", OUT, X, {5}, num(7)}; if (pol) eb.shape = {5, 4};
            if (pol) add(nm("element_dipole (4 pol)"), {{"theta", IN, R, {4}, pos(1)}, {"phi", IN, R, {4}, dy(2)}, {"beam", OUT, X, {5, 4}, num(7)}},
                {{"points", 4, SIZES}, {"freq", 1e8, REALS}, {"length", 1.5, REALS}, {"stride", 1, {0, -1, 2, 1000}}, {"offset", 1, OFFS}},
                [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_element_beam_dipole((int) s[0], m[0], m[1], s[1], s[2], (int) s[3], (int) s[4], m[2], st); }, 1e-6);
            else add(nm("element_dipole (1 pol)"), {{"theta", IN, R, {4}, pos(1)}, {"phi", IN, R, {4}, dy(2)}, {"beam", OUT, X, {5}, num(7)}},
                {{"points", 4, SIZES}, {"freq", 1e8, REALS}, {"length", 1.5, REALS}, {"stride", 1, {0, -1, 2, 1000}}, {"offset", 1, OFFS}},
                [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_element_beam_dipole((int) s[0], m[0], m[1], s[1], s[2], (int) s[3], (int) s[4], m[2], st); }, 1e-6);
            if (pol) add(nm("spherical_wave"), {{"theta", IN, R, {4}, pos(1)}, {"phi x", IN, R, {4}, dy(2)}, {"phi y", IN, R, {4}, dy(3)}, {"coeffs", IN, X, {8, 4}, cdy(4)}, {"beam", OUT, X, {5, 4}, num(7)}},
                {{"points", 4, SIZES}, {"l_max", 2, {0, -1, 1, 3, 1000000}}, {"offset", 1, OFFS}},
                [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_element_beam_spherical_wave_harp((int) s[0], m[0], m[1], m[2], (int) s[1], m[3], (int) s[2], m[4], st); }, 1e-6);
            std::vector<Array> a = {{"weights", IN, X, {3}, cdy(1)}, {"x", IN, R, {3}, dy(2)}, {"y", IN, R, {3}, dy(3)}, {"z", IN, R, {3}, dy(4)},
                {"px", IN, R, {5}, dy(5)}, {"py", IN, R, {5}, dy(6)}, {"pz", IN, R, {5}, dy(7)}, {"index", IN, I4, {3}, list({1, 0, 1})},
                {"element beam", IN, X, {2, 4, 1}, cdy(8)}, {"beam", OUT, X, {5}, num(7)}};
            a[8].shape = pol ? Shape{2, 4, 4} : Shape{2, 4};
            a[9].shape = pol ? Shape{5, 4} : Shape{5};
            add(nm(pol ? "station_beam (4 pol)" : "station_beam (1 pol)"), a,
                {{"wavenumber", 2, REALS}, {"offset points", 1, OFFS}, {"points", 4, SIZES}, {"offset beam", 1, OFFS}, {"normalise", 1, FLAGS}, {"eval x", 1, FLAGS}, {"eval y", 1, FLAGS}},
                [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_station_beam_aperture_array(s[0], m[0], m[1], m[2], m[3], (int) s[1], (int) s[2], m[4], m[5], m[6], m[7], m[8], (int) s[3], m[9], (int) s[4], (int) s[5], (int) s[6], st); }, 1e-6);
        }
        // ---- visibility functions
        add(nm("dft_v00"), {{"directions", IN, F8, {3, 3}, dy(1, 0.25)}, {"fluxes", IN, C16, {3, 2, 4}, cdy(2)}, {"uvw", IN, F8, {2, 2, 2, 3}, dy(3, 8)}, {"vis", OUT, X, {2, 2, 2, 4}, num(7)}}, {},
            [](const Mems& m, const Nums&, sdp_Error* st, Nums&) { sdp_dft_point_v00(m[0], m[1], m[2], m[3], st); }, 1e-6);
        add(nm("dft_v01"), {{"directions", IN, F8, {3, 3}, dy(1, 0.25)}, {"fluxes", IN, C16, {3, 2, 4}, cdy(2)}, {"uvw", IN, F8, {2, 2, 3}, dy(3, 8)}, {"vis", OUT, X, {2, 2, 2, 4}, num(7)}},
            {{"freq", C0, REALS}, {"step", C0 / 4, REALS}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_dft_point_v01(m[0], m[1], m[2], s[0], s[1], m[3], st); }, 1e-6);
        add(nm("flagger"), {{"vis", IN, X, {7, 2, 5, 2}, [](int64_t i, const Shape&) { return cd(1 + (i % 37 == 5 ? 8 : floor(8 * hashval(i, 4)) / 16), 0); }}, {"flags", INOUT, I4, {7, 2, 5, 2}, [](int64_t i, const Shape&) { return cd(i % 23 == 3, 0); }}},
            {{"alpha", 0.5, REALS}, {"magnitudes", 3.5, REALS}, {"variations", 3.5, REALS}, {"broadband", 3.5, REALS}, {"sampling", 1, {0, -1, 2, 1000, 2147483647.}}, {"window", 1, {0, -1, 2, 1000, 2147483647.}}, {"history", 3, {0, -1, 1, 1000, 2147483647.}}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_flagger_dynamic_threshold(m[0], m[1], s[0], s[1], s[2], s[3], (int) s[4], (int) s[5], (int) s[6], st); });
        add(nm("phase_rotate_uvw"), {{"in", IN, R, {2, 3, 3}, dy(1, 8)}, {"out", OUT, R, {2, 3, 3}, num(7)}}, {},
            [](const Mems& m, const Nums&, sdp_Error* st, Nums&)
            {
                sdp_SkyCoord *a = icrs(0.2, -0.4), *b = icrs(0.3, -0.5);
                sdp_phase_rotate_uvw(a, b, m[0], m[1], st);
                sdp_sky_coord_free(a); sdp_sky_coord_free(b);
            }, 1e-6);
        add(nm("phase_rotate_vis"), {{"uvw", IN, R, {2, 3, 3}, dy(1, 8)}, {"in", IN, X, {2, 3, 2, 4}, cdy(2)}, {"out", OUT, X, {2, 3, 2, 4}, num(7)}}, {{"freq", C0, REALS}, {"step", C0 / 4, REALS}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&)
            {
                sdp_SkyCoord *a = icrs(0.2, -0.4), *b = icrs(0.3, -0.5);
                sdp_phase_rotate_vis(a, b, s[0], s[1], m[0], m[1], m[2], st);
                sdp_sky_coord_free(a); sdp_sky_coord_free(b);
            }, 1e-5);
        for (int br = 0; br < 2; ++br)
            add(nm(br ? "weighting_briggs" : "weighting_uniform"), {{"uvw", IN, F8, {2, 3, 3}, dy(1, 4)}, {"freq", IN, F8, {2}, list({C0, C0 * 1.25})}, {"grid", INOUT, R, {4, 4, 2}, num(0)},
                {"in", IN, R, {2, 3, 2, 2}, pos(3)}, {"out", OUT, R, {2, 3, 2, 2}, num(7)}}, {{"max uv", 6, REALS}, {"robust", 0.5, {-3, 3, 1e300, NAN}}},
                [br](const Mems& m, const Nums& s, sdp_Error* st, Nums&)
                {
                    if (br) sdp_weighting_briggs(m[0], m[1], s[0], s[1], m[2], m[3], m[4], st);
                    else sdp_weighting_uniform(m[0], m[1], s[0], m[2], m[3], m[4], st);
                }, 1e-5);
        // grid 16, cells of 1/16: 3x3 tiles of 8 allow for the half-tile shift
        const std::vector<Scalar> ts = {{"grid", 16, {0, -1, 8, 1000}}, {"tile u", 8, {0, -1, 4, 16, 1000}}, {"tile v", 8, {0, -1, 4, 16, 1000}}, {"cell", 1. / 16, REALS}, {"support", 1, {0, -1, 3, 100, 2147483647.}}};
        if (!P) add("count_and_prefix_sum", {{"uvw", IN, F8, {2, 3, 3}, dy(1, 3)}, {"freq", IN, F8, {2}, list({C0, C0 * 1.25})}, {"vis", IN, C16, {2, 3, 2, 1}, cdy(2)},
                {"offsets", OUT, I4, {10}, num(0)}, {"counts", OUT, I4, {9}, num(0)}, {"skipped", OUT, I4, {1}, num(0)}}, ts,
                [](const Mems& m, const Nums& s, sdp_Error* st, Nums& r)
                {
                    int n = -5; sdp_count_and_prefix_sum(m[0], m[1], m[2], (int) s[0], (int64_t) s[1], (int64_t) s[2], s[3], (int64_t) s[4], &n, m[3], m[4], m[5], st); r.push_back(n);
                });
        {
            // offsets leave room for every visibility in every tile
            auto off = [](int64_t i, const Shape&) { return cd(i * 12.0, 0); };
            std::vector<Array> a = {{"uvw", IN, R, {2, 3, 3}, dy(1, 3)}, {"freq", IN, R, {2}, list({C0, C0 * 1.25})}, {"vis", IN, X, {2, 3, 2, 1}, cdy(2)}, {"weights", IN, R, {2, 3, 2, 1}, pos(3)},
                {"su", OUT, R, {108}, num(7)}, {"sv", OUT, R, {108}, num(7)}, {"sw", OUT, R, {108}, num(7)}, {"tile", OUT, I4, {108}, num(7)}, {"svis", OUT, X, {108}, num(7)}, {"offsets", INOUT, I4, {10}, off}};
            add(nm("bucket_sort"), a, ts, [](const Mems& m, const Nums& s, sdp_Error* st, Nums&)
                { sdp_bucket_sort(m[0], m[1], m[2], m[3], (int) s[0], (int64_t) s[1], (int64_t) s[2], s[3], (int64_t) s[4], m[4], m[5], m[6], m[7], m[8], m[9], st); });
            std::vector<Scalar> t2 = ts; t2.push_back({"channels", 2, {0, -1, 3, 1000}}); t2.push_back({"baselines", 3, {0, -1, 4, 1000}}); t2.push_back({"times", 2, {0, -1, 3, 1000}});
            std::vector<Array> b = {a[0], a[1], a[7], a[4], a[5], {"index", OUT, I4, {108}, num(7)}, a[9]};
            add(nm("tiled_indexing"), b, t2, [](const Mems& m, const Nums& s, sdp_Error* st, Nums&)
                { sdp_tiled_indexing(m[0], m[1], (int) s[0], (int64_t) s[1], (int64_t) s[2], s[3], (int64_t) s[4], (int64_t) s[5], (int64_t) s[6], (int64_t) s[7], m[2], m[3], m[4], m[5], m[6], st); });
        }
        // ---- gridding
        if (!P) add("degrid_uvw_custom", {{"grid", IN, C16, {2, 3, 8, 8, 4}, cdy(1)}, {"uvw", IN, F8, {2, 3, 3}, dy(2, 16)}, {"uv kernel", IN, F8, {4, 3}, dy(3)}, {"w kernel", IN, F8, {4, 3}, dy(4)}, {"vis", OUT, C16, {2, 3, 2, 4}, num(7)}},
                {{"theta", 0.125, REALS}, {"wstep", 16, REALS}, {"freq", C0, REALS}, {"step", C0 / 4, REALS}, {"conjugate", 0, FLAGS}},
                [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_degrid_uvw_custom(m[0], m[1], m[2], m[3], s[0], s[1], s[2], s[3], (int) s[4], m[4], st); });
        const Array uvw = {"uvw", IN, R, {6, 3}, coords(5, 40, 20)}, c0 = {"start", IN, I4, {6}, list({0, 0, 1})}, c1 = {"end", IN, I4, {6}, list({2, 1, 3})};
        const Array vin = {"vis", IN, X, {6, 3}, cdy(6)}, vout = {"vis", INOUT, X, {6, 3}, cdy(7)};
        if (!P) add("clamp_single", {{"uvw", IN, F8, {6, 3}, coords(5, 40, 20)}, c0, c1, {"out start", OUT, I4, {6}, num(7)}, {"out end", OUT, I4, {6}, num(7)}},
                {{"dim", 1, {0, 2, 3, -1}}, {"freq", C0, REALS}, {"step", C0 / 4, REALS}, {"min", -8, REALS}, {"max", 16, REALS}, {"row 0", 1, {-1, 0, 6, 7, 1000}}, {"row 1", 5, {-1, 0, 6, 7, 1000}}},
                [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_gridder_clamp_channels_single(m[0], (int) s[0], s[1], s[2], m[1], m[2], s[3], s[4], m[3], m[4], (int64_t) s[5], (int64_t) s[6], st); });
        if (!P) add("clamp_uv", {{"uvw", IN, F8, {6, 3}, coords(5, 40, 20)}, c0, c1, {"out start", OUT, I4, {6}, num(7)}, {"out end", OUT, I4, {6}, num(7)}},
                {{"freq", C0, REALS}, {"step", C0 / 4, REALS}, {"min u", -8, REALS}, {"max u", 16, REALS}, {"min v", -16, REALS}, {"max v", 16, REALS}, {"row 0", 1, {-1, 0, 6, 7, 1000}}, {"row 1", 5, {-1, 0, 6, 7, 1000}}},
                [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_gridder_clamp_channels_uv(m[0], s[0], s[1], m[1], m[2], s[2], s[3], s[4], s[5], m[3], m[4], (int64_t) s[6], (int64_t) s[7], st); });
        for (int k = 0; k < 4; ++k)
        {
            // k: direct grid, direct degrid, w-tower grid, w-tower degrid
            std::vector<Array> a = {k % 2 ? vout : vin, uvw, c0, c1, {"image", k % 2 ? IN : INOUT, X, {k < 2 ? 8 : 16, k < 2 ? 8 : 16}, dy(8)}};
            std::vector<Scalar> s = {{"offset u", 0, OFFS}, {"offset v", 1, OFFS}, {"offset w", 0, {1, -1, 5, -5}}, {"freq", C0, REALS}, {"step", C0 / 4, REALS}};
            if (k >= 2) { s.push_back({"row 0", 0, {-1, 1, 6, 7, 1000}}); s.push_back({"row 1", 6, {-1, 0, 5, 7, 1000}}); }
            static const char* N[] = {"direct_grid", "direct_degrid", "wtower_grid", "wtower_degrid"};
            add(nm(N[k]), a, s, [k](const Mems& m, const Nums& s, sdp_Error* st, Nums&)
            {
                sdp_Error s0 = SDP_SUCCESS;
                const int ou = (int) s[0], ov = (int) s[1], ow = (int) s[2];
                if (k < 2)
                {
                    sdp_GridderDirect* p = sdp_gridder_direct_create(32, 8, 0.25, 16, 0.1, -0.1, 8, &s0);
                    if (s0) { if (!*st) *st = s0; }
                    else if (k == 0) sdp_gridder_direct_grid(p, m[0], m[1], m[2], m[3], s[3], s[4], m[4], ou, ov, ow, st);
                    else sdp_gridder_direct_degrid(p, m[4], ou, ov, ow, s[3], s[4], m[1], m[2], m[3], m[0], st);
                    sdp_gridder_direct_free(p);
                }
                else
                {
                    sdp_GridderWtowerUVW* p = sdp_gridder_wtower_uvw_create(32, 16, 0.125, 16, 0.1, -0.1, 4, 64, 4, 64, &s0);
                    if (s0) { if (!*st) *st = s0; }
                    else if (k == 2) sdp_gridder_wtower_uvw_grid(p, m[0], m[1], m[2], m[3], s[3], s[4], m[4], ou, ov, ow, (int64_t) s[5], (int64_t) s[6], st);
                    else sdp_gridder_wtower_uvw_degrid(p, m[4], ou, ov, ow, s[3], s[4], m[1], m[2], m[3], m[0], (int64_t) s[5], (int64_t) s[6], st);
                    sdp_gridder_wtower_uvw_free(p);
                }
            }, 1e-5);
        }
        for (int k = 0; k < 6; ++k)
        {
            // corrections of a facet
            static const char* N[] = {"direct_grid_correct", "direct_degrid_correct", "wtower_grid_correct", "wtower_degrid_correct", "grid_correct_pswf", "grid_correct_w_stack"};
            add(nm(N[k]), {{"facet", INOUT, X, {12, 10}, cdy(9)}}, {{"offset l", 2, OFFS}, {"offset m", -3, OFFS}, {"w offset", 1, {0, -3, 1000}}, {"size", 32, {16, 8}}, {"support", 8, {0, -1, 4}}},
                [k](const Mems& m, const Nums& s, sdp_Error* st, Nums&)
                {
                    sdp_Error s0 = SDP_SUCCESS;
                    const int ol = (int) s[0], om = (int) s[1], w = (int) s[2], sz = (int) s[3], su = (int) s[4];
                    if (k < 2)
                    {
                        sdp_GridderDirect* p = sdp_gridder_direct_create(sz, 8, 0.25, 16, 0.1, -0.1, su, &s0);
                        if (s0) { if (!*st) *st = s0; }
                        else (k ? sdp_gridder_direct_degrid_correct : sdp_gridder_direct_grid_correct)(p, m[0], ol, om, w, st);
                        sdp_gridder_direct_free(p);
                    }
                    else if (k < 4)
                    {
                        if (su < 1) return;
                        sdp_GridderWtowerUVW* p = sdp_gridder_wtower_uvw_create(sz, 8, 0.25, 16, 0.1, -0.1, su, 64, 4, 64, &s0);
                        if (s0) { if (!*st) *st = s0; }
                        else (k == 3 ? sdp_gridder_wtower_uvw_degrid_correct : sdp_gridder_wtower_uvw_grid_correct)(p, m[0], ol, om, w, st);
                        sdp_gridder_wtower_uvw_free(p);
                    }
                    else if (k == 4) sdp_gridder_grid_correct_pswf(sz, 0.25, 16, 0.1, -0.1, su, 4, m[0], ol, om, st);
                    else sdp_gridder_grid_correct_w_stack(sz, 0.25, 16, 0.1, -0.1, m[0], ol, om, w, 0, st);
                }, 1e-5);
        }
        for (int k = 0; k < 2; ++k)
        {
            const Array u2 = {"uvw", IN, F8, {6, 3}, coords(5, 30, 20)};
            std::vector<Array> a = {k ? vout : vin, u2, {"image", k ? IN : OUT, R, {32, 32}, k ? dy(8) : num(0)}};
            add(nm(k ? "wstack_degrid_all" : "wstack_grid_all"), a,
                {{"subgrid", 16, {8}}, {"support", 4, {6}}, {"threads", 1, {0, 2}}, {"freq", C0, {}}, {"step", C0 / 4, {}}, {"height", 2, {1}}},
                [k](const Mems& m, const Nums& s, sdp_Error* st, Nums&)
                {
                    if (k) sdp_grid_wstack_wtower_degrid_all(m[2], s[3], s[4], m[1], (int) s[0], 0.125, 16, 0.1, -0.1, (int) s[1], 64, 4, 64, 0.6, s[5], 0, m[0], (int) s[2], st);
                    else sdp_grid_wstack_wtower_grid_all(m[0], s[3], s[4], m[1], (int) s[0], 0.125, 16, 0.1, -0.1, (int) s[1], 64, 4, 64, 0.6, s[5], 0, m[2], (int) s[2], st);
                }, 1e-4);
            T.back().across_types = false; // the correction at the edge of the field amplifies rounding without limit
        }
        // ---- gridder utilities
        for (int k = 0; k < 2; ++k)
        {
            add(nm(k ? "scale_inv_array" : "accumulate_scaled_arrays"), {{"out", k ? OUT : INOUT, X, {4, 6}, cdy(1)}, {"in1", IN, X, {4, 6}, cdy(2)}, {"in2", IN, C16, {4, 6}, [](int64_t i, const Shape&) { return cd(1 + i % 3, 0); }}}, {{"exponent", 2, {0, 1, -1, 7}}},
                [k](const Mems& m, const Nums& s, sdp_Error* st, Nums&)
                {
                    if (k) sdp_gridder_scale_inv_array(m[0], m[1], m[2], (int) s[0], st);
                    else sdp_gridder_accumulate_scaled_arrays(m[0], m[1], m[2], (int) s[0], st);
                }, 1e-5);
            add(nm(k ? "subgrid_cut_out" : "subgrid_add"), {{"grid", k ? IN : INOUT, X, {9, 8}, cdy(1)}, {"subgrid", k ? OUT : IN, X, {4, 5}, cdy(2)}}, {{"offset u", 3, OFFS}, {"offset v", -4, OFFS}, {"factor", 0.5, {0, -1}}},
                [k](const Mems& m, const Nums& s, sdp_Error* st, Nums&)
                {
                    if (k) sdp_gridder_subgrid_cut_out(m[0], (int) s[0], (int) s[1], m[1], st);
                    else sdp_gridder_subgrid_add(m[0], (int) s[0], (int) s[1], m[1], s[2], st);
                }, 1e-5);
        }
        add(nm("count_nonzero_pixels"), {{"image", IN, X, {4, 5}, [](int64_t i, const Shape&) { return cd(i % 3, 0); }}}, {},
            [](const Mems& m, const Nums&, sdp_Error* st, Nums& r) { r.push_back((double) sdp_gridder_count_nonzero_pixels(m[0], st)); });
        add(nm("image_to_flmn"), {{"image", IN, X, {5, 5}, [](int64_t i, const Shape&) { return cd(i % 3 == 1 ? i : 0, 0); }}, {"taper", IN, F8, {5}, pos(1)}, {"flux", OUT, F8, {8}, num(7)}, {"lmn", OUT, R, {8, 3}, num(7)}},
            {{"theta", 0.25, {0, 1e300, NAN}}, {"shear u", 0.1, {NAN}}, {"shear v", 0.2, {NAN}}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_gridder_image_to_flmn(m[0], s[0], s[1], s[2], m[1], m[2], m[3], st); }, 1e-5);
        add(nm("gridder_dft"), {{"uvw", IN, R, {6, 3}, coords(5, 40, 20)}, c0, c1, {"flux", IN, F8, {4}, dy(2)}, {"lmn", IN, R, {4, 3}, dy(3, 0.125)}, vout},
            {{"offset u", 1, OFFS}, {"offset v", 0, OFFS}, {"offset w", 1, OFFS}, {"theta", 0.25, REALS}, {"wstep", 16, REALS}, {"freq", C0, REALS}, {"step", C0 / 4, REALS}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_gridder_dft(m[0], m[1], m[2], m[3], m[4], (int) s[0], (int) s[1], (int) s[2], s[3], s[4], s[5], s[6], m[5], st); }, 1e-5);
        add(nm("gridder_idft"), {{"uvw", IN, R, {6, 3}, coords(5, 40, 20)}, vin, c0, c1, {"lmn", IN, R, {16, 3}, dy(3, 0.125)}, {"taper", IN, F8, {4}, pos(1)}, {"image", INOUT, X, {4, 4}, cdy(2)}},
            {{"offset u", 1, OFFS}, {"offset v", 0, OFFS}, {"offset w", 1, OFFS}, {"theta", 0.25, REALS}, {"wstep", 16, REALS}, {"freq", C0, REALS}, {"step", C0 / 4, REALS}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_gridder_idft(m[0], m[1], m[2], m[3], m[4], m[5], (int) s[0], (int) s[1], (int) s[2], s[3], s[4], s[5], s[6], m[6], st); }, 1e-5);
        add(nm("make_kernel"), {{"window", IN, R, {6}, dy(1)}, {"kernel", OUT, R, {9, 6}, num(7)}}, {},
            [](const Mems& m, const Nums&, sdp_Error* st, Nums&) { sdp_gridder_make_kernel(m[0], m[1], st); }, 1e-5);
        add(nm("make_pswf_kernel"), {{"kernel", OUT, R, {9, 6}, num(7)}}, {{"support", 6, {0, -1, 4, 7, 8}}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_gridder_make_pswf_kernel((int) s[0], m[0], st); }, 1e-5);
        if (!P) add("make_w_pattern", {{"pattern", OUT, C16, {8, 8}, num(7)}}, {{"size", 8, {0, -1, 7, 9, 1000}}, {"theta", 0.25, REALS}, {"shear u", 0.1, {NAN}}, {"shear v", 0.2, {NAN}}, {"wstep", 16, REALS}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_gridder_make_w_pattern((int) s[0], s[1], s[2], s[3], s[4], m[0], st); });
        add(nm("residual"), {{"a", IN, X, {4, 5}, cdy(1)}, {"b", IN, X, {4, 5}, cdy(2)}, {"out", OUT, X, {4, 5}, num(7)}}, {},
            [](const Mems& m, const Nums&, sdp_Error* st, Nums&) { sdp_gridder_residual(m[0], m[1], m[2], st); }, 1e-5);
        add(nm("rms_diff"), {{"a", IN, X, {4, 5}, cdy(1)}, {"b", IN, X, {4, 5}, cdy(2)}}, {},
            [](const Mems& m, const Nums&, sdp_Error* st, Nums& r) { r.push_back(sdp_gridder_rms_diff(m[0], m[1], st)); }, 1e-5);
        add(nm("shift_subgrids"), {{"subgrids", INOUT, X, {2, 4, 6}, cdy(1)}}, {},
            [](const Mems& m, const Nums&, sdp_Error* st, Nums&) { sdp_gridder_shift_subgrids(m[0], st); });
        if (!P) add("sum_diff", {{"a", IN, I4, {6}, list({5, 7, 3})}, {"b", IN, I4, {6}, list({2, 1})}}, {{"row 0", 1, {-1, 0, 6, 7, 1000}}, {"row 1", 5, {-1, 0, 6, 7, 1000}}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums& r) { int64_t v = -5; sdp_gridder_sum_diff(m[0], m[1], &v, (int64_t) s[0], (int64_t) s[1], st); r.push_back((double) v); });
        if (!P) add("uvw_bounds_all", {{"uvw", IN, F8, {6, 3}, coords(5, 40, 20)}, c0, c1}, {{"freq", C0, REALS}, {"step", C0 / 4, REALS}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums& r)
            {
                double lo[3] = {1, 2, 3}, hi[3] = {4, 5, 6}; sdp_gridder_uvw_bounds_all(m[0], s[0], s[1], m[1], m[2], lo, hi, st);
                r.insert(r.end(), lo, lo + 3); r.insert(r.end(), hi, hi + 3);
            });
        if (!P) add("worst_case_image", {{"image", OUT, C16, {16, 16}, num(0)}}, {{"theta", 0.25, REALS}, {"fov", 0.15, REALS}},
            [](const Mems& m, const Nums& s, sdp_Error* st, Nums&) { sdp_gridder_worst_case_image(s[0], s[1], m[0], st); });
    }
    P = 0;
    return T;
}

} // namespace api
