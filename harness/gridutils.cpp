// K01: channel clamping.   G05: gridder utility operators.   G06: grid correction.   G01: direct gridder.
#include "mc/arr.hpp"
#include "harness/pswf_oracle.hpp"
#include "ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_grid_correct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"

static const Layout LAY[] = {L_C, L_PAD, L_F};
static double eps_of(sdp_MemType t) { return t_is_single(t) ? 1.2e-7 : 2.3e-16; }

// ---------------------------------------------------------------- K01 -----
static void k01()
{
    mc::context("clamp");
    // positions in metres: with f0 = C_0 the first channel is at exactly u wavelengths
    static const double U[] = {0, 1, -1, 2.5, -2.5, 7, -7, 100, -100, 1e-3, -1e-3, 1e-9, -1e-9, 12345.678, -12345.678};
    static const double F0[] = {C_0, 1.5e8, C_0 / 4};
    static const double DF[] = {0, C_0 / 4, C_0 / 64, 12345.6, -C_0 / 64};
    int form = mc::choose(5, "form"); // 0 1 2: single(dim), 3: uv, 4: inline
    sdp_MemType ut = mc::flip("float uvw") ? SDP_MEM_FLOAT : SDP_MEM_DOUBLE;
    double f0 = F0[mc::choose(mc::quick() ? 2 : 3, "freq0")];
    double df = DF[mc::choose(5, "dfreq")];
    int lay = form == 4 ? 0 : mc::choose(3, "layout");
    // three adjacent ranges
    static const double B[][4] = {{-3, 0, 1, 3}, {-10, -1, 0, 8}, {-1e4, -100, 100, 1e5}, {0, 1.25, 2.5, 2.75},
        {-7, -2.5, -1.75, 0}, {-1e-3, 0, 1e-9, 1e-3}, {-1e12, 1, 1.5, 1e12}, {-INFINITY, -2.5, 2.625, INFINITY}};
    const double* b = B[mc::choose(8, "bounds")];
    int s_in = mc::pick({0, 1, 5}, "start"), e_in = mc::pick({16, 3, 0, 300}, "end");
    const int nu = sizeof U / sizeof *U;
    const bool large = form != 4 && s_in == 0 && lay == 0 && f0 == F0[0] && mc::flip("large"); // many rows
    if (large && e_in == 300) mc::infeasible();
    const int n = large ? 40 * nu + 7 : nu;
    const int rows_sel = form == 4 ? 0 : mc::choose(3, "rows");
    if (mc::quick() && rows_sel && lay == 1) mc::infeasible();
    if (mc::quick() && (rows_sel == 1 || lay == 2) && b[0] == -1e4) mc::infeasible();
    int64_t r0 = rows_sel == 0 ? -1 : rows_sel == 1 ? 0 : 4, r1 = rows_sel == 0 ? -1 : rows_sel == 1 ? n : large ? n - 3 : 9;
    Arr uvw(ut, {n, 3}, LAY[lay]), si(SDP_MEM_INT, {n}, LAY[lay]), ei(SDP_MEM_INT, {n}, LAY[lay]);
    for (int i = 0; i < n; ++i)
    {
        for (int d = 0; d < 3; ++d) uvw.set({i, d}, i < nu ? U[(i + 4 * d) % nu] : 6 * hashval(i, 60 + d));
        si.set({i}, s_in + (i == 3));
        ei.set({i}, e_in - (i == 5));
    }
    std::string b_uvw = uvw.bytes(), b_si = si.bytes(), b_ei = ei.bytes();
    const int nd = form == 3 ? 2 : 1;
    // per-dimension membership bands: 0 outside, 1 inside, 2 at the boundary (either)
    auto where = [&](int row, int d, int c, int k) {
        long double u = uvw.re({row, d});
        long double x = u * ((long double) f0 + (long double) c * df) / C_0;
        auto near = [&](long double y) { return std::isfinite((double) y) && fabsl(x - y) <= 1e-12L * (fabsl(y) + fabsl(u) * (fabsl(f0) + fabsl(c * df)) / C_0) + 1e-300L; };
        if (near(b[k]) || near(b[k + 1])) return 2;
        return (x >= b[k] && x < b[k + 1]) ? 1 : 0;
    };
    auto run = [&](int k, int kv, std::vector<int>& so, std::vector<int>& eo) {
        so.assign(n, -77); eo.assign(n, -77);
        mc::calls();
        if (form == 4)
        {
            for (int i = 0; i < n; ++i)
            {
                int64_t s = (int64_t) si.re({i}), e = (int64_t) ei.re({i});
                sdp_gridder_clamp_channels_inline(uvw.re({i, 0}), f0, df, &s, &e, b[k], b[k + 1]);
                so[i] = (int) s; eo[i] = (int) e;
            }
            return;
        }
        Arr o1(SDP_MEM_INT, {n}, LAY[lay]), o2(SDP_MEM_INT, {n}, LAY[lay]);
        o1.fill(-77); o2.fill(-77);
        sdp_Error st = SDP_SUCCESS;
        if (form == 3)
            sdp_gridder_clamp_channels_uv(uvw.mem, f0, df, si.mem, ei.mem, b[k], b[k + 1], b[kv], b[kv + 1], o1.mem, o2.mem, r0, r1, &st);
        else
            sdp_gridder_clamp_channels_single(uvw.mem, form, f0, df, si.mem, ei.mem, b[k], b[k + 1], o1.mem, o2.mem, r0, r1, &st);
        MC_CHECK(!st, "clamp-status", "status %d", (int) st);
        for (int i = 0; i < n; ++i) { so[i] = (int) o1.re({i}); eo[i] = (int) o2.re({i}); }
    };
    std::vector<std::vector<int>> cover(n);
    for (int i = 0; i < n; ++i) cover[i].assign(400, 0);
    for (int k = 0; k < 3; ++k) for (int kv = 0; kv < (nd == 2 ? 3 : 1); ++kv)
    {
        std::vector<int> so, eo;
        run(k, kv, so, eo);
        for (int i = 0; i < n; ++i)
        {
            bool active = form == 4 || rows_sel != 2 || (i >= r0 && i < r1);
            if (!active)
            {
                MC_CHECK(so[i] == -77 && eo[i] == -77, "clamp-rows", "row %d outside [%d, %d) was written", i, (int) r0, (int) r1);
                continue;
            }
            int s = (int) si.re({i}), e = (int) ei.re({i});
            MC_CHECK(so[i] >= eo[i] || (so[i] >= s && eo[i] <= e), "clamp-outside-input", "row %d: [%d, %d) not within [%d, %d)", i, so[i], eo[i], s, e);
            for (int c = 0; c < 310; ++c)
            {
                bool in = c >= so[i] && c < eo[i];
                int want = (c >= s && c < e) ? (form == 4 ? where(i, 0, c, k) : form == 3 ? std::min(where(i, 0, c, k), where(i, 1, c, kv)) : where(i, form, c, k)) : 0;
                if (form == 3 && (c >= s && c < e))
                {
                    int a = where(i, 0, c, k), bb = where(i, 1, c, kv);
                    want = (a == 0 || bb == 0) ? 0 : (a == 2 || bb == 2) ? 2 : 1;
                }
                if (want != 2) MC_CHECK(in == (want == 1), "clamp-membership",
                            "form %d u=%.12g v=%.12g f0=%.12g df=%.12g channel %d of [%d, %d) range [%g, %g): got [%d, %d), channel should be %s",
                            form, uvw.re({i, form == 3 || form == 4 ? 0 : form}), uvw.re({i, 1}), f0, df, c, s, e, b[k], b[k + 1], so[i], eo[i], want ? "inside" : "outside");
                if (in) cover[i][c]++;
            }
            mc::state(mc::fnv(&so[i], 4, mc::fnv(&eo[i], 4, i)));
        }
    }
    // adjacent ranges never overlap and leave nothing out
    for (int i = 0; i < n; ++i)
    {
        bool active = form == 4 || rows_sel != 2 || (i >= r0 && i < r1);
        if (!active) continue;
        for (int c = 0; c < 310; ++c)
        {
            MC_CHECK(cover[i][c] <= 1, "clamp-overlap", "row %d channel %d is claimed by %d adjacent ranges", i, c, cover[i][c]);
            int s = (int) si.re({i}), e = (int) ei.re({i});
            if (c < s || c >= e) continue;
            int tot = 1;
            for (int d = 0; d < nd; ++d)
            {
                long double u = uvw.re({i, form >= 3 ? d : form});
                long double x = u * ((long double) f0 + (long double) c * df) / C_0;
                long double m = 1e-12L * (fabsl(x) + fabsl(u) * (fabsl(f0) + fabsl(c * df)) / C_0);
                if (!(x > b[0] + m && x < b[3] - m)) tot = 0;
            }
            if (tot) MC_CHECK(cover[i][c] == 1, "clamp-gap", "row %d channel %d is in no range", i, c);
        }
    }
    MC_CHECK(uvw.bytes() == b_uvw && si.bytes() == b_si && ei.bytes() == b_ei, "clamp-input-modified", "an input was modified");
}

// ---------------------------------------------------------------- G05 -----
static double o_n(double l, double m, double hu, double hv)
{
    // n from the sheared unit sphere: the root of l^2+m^2+(n+1)^2 with u,v sheared by h
    long double a = hu * hu + hv * hv + 1, bq = (long double) hu * l + (long double) hv * m - 1;
    long double disc = bq * bq - a * ((long double) l * l + (long double) m * m);
    return (double) ((sqrtl(disc) + bq) / a);
}
static void cmp(const char* what, const Arr& got, const std::vector<cd>& want, double tol)
{
    for (int64_t i = 0; i < got.size(); ++i)
    {
        cd d = got.get(i) - want[i];
        if (!(std::abs(d) <= tol * (1 + std::abs(want[i]))))
            mc::fail(what, "%s %s %s element %d is (%.12g, %.12g), expected (%.12g, %.12g)", what, tname(got.type), shape_str(got.shape).c_str(),
                    (int) i, got.get(i).real(), got.get(i).imag(), want[i].real(), want[i].imag());
    }
    mc::state(hash_vals(got.all()));
}
static cd ipow(cd x, int e) { cd r = 1; for (int i = 0; i < std::abs(e); ++i) r *= x; return e < 0 ? cd(1) / r : r; }
static const sdp_MemType FT4[] = {SDP_MEM_DOUBLE, SDP_MEM_FLOAT, SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_FLOAT};
static bool cplx(sdp_MemType t) { return (t & SDP_MEM_COMPLEX) == SDP_MEM_COMPLEX; }

static void g05_arrays()
{
    int op = mc::choose(4, "op");
    sdp_MemType to = FT4[mc::choose(4, "out")], t1 = FT4[mc::choose(4, "in1")];
    Shape s = mc::pick(std::vector<Shape>{{1, 1}, {2, 3}, {4, 3}, {1, 5}, {37, 131}}, "shape");
    int lo = mc::choose(3, "lay out"), l1 = mc::choose(3, "lay in1");
    sdp_Error st = SDP_SUCCESS;
    if (op == 0)
    {
        mc::context("accumulate");
        int ex = mc::choose(9, "exponent") - 2;      // 4: no second array
        if (ex > 4) ex = ex == 5 ? 25 : -130;
        bool none = ex == 4;
        sdp_MemType t2 = mc::pick({SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_FLOAT}, "in2");
        if (none && t2 != SDP_MEM_COMPLEX_DOUBLE) mc::infeasible();
        if (!cplx(to) && !none) mc::infeasible();    // the real part of the first array only
        Arr out(to, s, LAY[lo]), a(t1, s, LAY[l1]), b(t2, s, LAY[mc::choose(3, "lay in2")]);
        fill_hash(out, 1); fill_hash(a, 2); fill_hash(b, 3);
        for (int64_t i = 0; i < b.size(); ++i) b.set(i, b.get(i) + cd(1.5, 0.5));
        if (std::abs(ex) > 4) for (int64_t i = 0; i < b.size(); ++i) b.set(i, b.get(i) / std::abs(b.get(i)));
        auto o0 = out.all(); std::string ba = a.bytes(), bb = b.bytes(), bo = out.bytes();
        mc::calls();
        sdp_gridder_accumulate_scaled_arrays(out.mem, a.mem, none ? NULL : b.mem, none ? 0 : ex, &st);
        bool ok = cplx(to) ? t2 == SDP_MEM_COMPLEX_DOUBLE : cplx(t1);
        MC_CHECK((st == 0) == ok, "accumulate-types", "out %s in1 %s in2 %s: status %d", tname(to), tname(t1), tname(t2), (int) st);
        MC_CHECK(a.bytes() == ba && b.bytes() == bb, "accumulate-input", "input modified");
        if (!ok) { MC_CHECK(out.bytes() == bo, "accumulate-failed-output", "output modified by a refused call"); return; }
        auto w = o0;
        for (size_t i = 0; i < w.size(); ++i) w[i] += !cplx(to) ? cd(a.get(i).real()) : a.get(i) * (none ? cd(1) : ipow(b.get(i), ex));
        cmp("accumulate", out, w, 40 * eps_of(to) + 5e-16 * std::abs(ex));
    }
    else if (op == 1)
    {
        mc::context("scale_inv");
        int ex = mc::choose(7, "exponent") - 1;
        if (ex > 3) ex = ex == 4 ? 26 : -130;
        sdp_MemType t2 = mc::pick({SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_FLOAT}, "in2");
        Arr out(to, s, LAY[lo]), a(t1, s, LAY[l1]), b(t2, s, LAY[mc::choose(3, "lay in2")]);
        fill_hash(out, 1); fill_hash(a, 2); fill_hash(b, 3);
        for (int64_t i = 0; i < b.size(); ++i) b.set(i, b.get(i) + cd(1.5, 0.5));
        if (std::abs(ex) > 4) for (int64_t i = 0; i < b.size(); ++i) b.set(i, b.get(i) / std::abs(b.get(i)));
        std::string ba = a.bytes(), bb = b.bytes(), bo = out.bytes();
        mc::calls();
        sdp_gridder_scale_inv_array(out.mem, a.mem, b.mem, ex, &st);
        bool must = cplx(to) && t1 == to && t2 == SDP_MEM_COMPLEX_DOUBLE;
        MC_CHECK(!must || st == 0, "scale_inv-types", "out %s in1 %s in2 %s: status %d", tname(to), tname(t1), tname(t2), (int) st);
        MC_CHECK(a.bytes() == ba && b.bytes() == bb, "scale_inv-input", "input modified");
        if (st) { MC_CHECK(out.bytes() == bo, "scale_inv-failed-output", "output modified by a refused call"); return; }
        std::vector<cd> w(a.size());
        for (size_t i = 0; i < w.size(); ++i) w[i] = a.get(i) / ipow(b.get(i), ex);
        cmp("scale_inv", out, w, 40 * std::max(eps_of(to), eps_of(t1)) + 5e-16 * std::abs(ex));
    }
    else
    {
        mc::context(op == 2 ? "residual" : "rms_diff");
        sdp_MemType tb = to;
        Arr a(t1, s, LAY[l1]), b(tb, s, LAY[lo]), out(t1, s, LAY[mc::choose(3, "lay res")]);
        fill_hash(a, 5); fill_hash(b, 6); fill_hash(out, 7);
        std::string ba = a.bytes(), bb = b.bytes(), bo = out.bytes();
        bool must = t1 == tb || (t1 == SDP_MEM_DOUBLE && tb == SDP_MEM_FLOAT) || (t1 == SDP_MEM_COMPLEX_DOUBLE && tb == SDP_MEM_COMPLEX_FLOAT);
        mc::calls();
        if (op == 2)
        {
            sdp_gridder_residual(a.mem, b.mem, out.mem, &st);
            MC_CHECK(!must || st == 0, "residual-types", "%s - %s: status %d", tname(t1), tname(tb), (int) st);
            if (st) { MC_CHECK(out.bytes() == bo, "residual-failed-output", "output modified by a refused call"); return; }
            std::vector<cd> w(a.size());
            for (size_t i = 0; i < w.size(); ++i) w[i] = a.get(i) - b.get(i);
            cmp("residual", out, w, 8 * eps_of(t1));
        }
        else
        {
            double r = sdp_gridder_rms_diff(a.mem, b.mem, &st);
            MC_CHECK(!must || st == 0, "rms-types", "%s - %s: status %d", tname(t1), tname(tb), (int) st);
            if (st) return;
            double sum = 0;
            for (int64_t i = 0; i < a.size(); ++i) sum += std::norm(a.get(i) - b.get(i));
            double w = sqrt(sum / a.size());
            MC_CHECK(fabs(r - w) <= 1e-6 * (t_is_single(t1) ? 1 : 1e-8) * (1 + w), "rms-value", "rms %.12g expected %.12g", r, w);
            mc::state((uint64_t) (r * 1e9));
        }
        MC_CHECK(a.bytes() == ba && b.bytes() == bb, "diff-input", "input modified");
    }
}

static void g05_subgrid()
{
    bool add = mc::flip("add");
    mc::context(add ? "subgrid_add" : "subgrid_cut_out");
    sdp_MemType t = FT4[mc::choose(4, "type")];
    const bool large = mc::flip("large");
    int G0 = large ? 45 : mc::range(1, mc::quick() ? 5 : 8, "g0"), G1 = large ? mc::pick({70, 150}, "g1") : mc::pick({1, 4, 6, 7}, "g1");
    int S0 = large ? mc::pick({33, 60}, "s0") : mc::range(1, mc::quick() ? 6 : 8, "s0"), S1 = large ? 67 : mc::pick({1, 4, 5}, "s1");
    int lay = mc::choose(3, "layout");
    Arr sub(t, {S0, S1}, LAY[(lay + 1) % 3]);
    double factor = add ? mc::pick({1.0, -2.5}, "factor") : 1;
    for (int ou = -2 * G0 - 1; ou <= 2 * G0 + 1; ou += large ? 31 : 1) for (int ov : {-3, 0, 1, 2, 9, -1000})
    {
        Arr grid(t, {G0, G1}, LAY[lay]);
        fill_hash(grid, 1); fill_hash(sub, 2);
        std::vector<cd> w = add ? grid.all() : sub.all();
        auto mod = [](int64_t a, int64_t b) { return ((a % b) + b) % b; };
        for (int i = 0; i < S0; ++i) for (int j = 0; j < S1; ++j)
        {
            int64_t gi = mod(i - S0 / 2 + G0 / 2 + (add ? -ou : ou), G0), gj = mod(j - S1 / 2 + G1 / 2 + (add ? -ov : ov), G1);
            if (add) w[gi * G1 + gj] += sub.get({i, j}) * factor;
            else w[i * S1 + j] = grid.get({gi, gj});
        }
        std::string keep = add ? sub.bytes() : grid.bytes();
        sdp_Error st = SDP_SUCCESS;
        mc::calls();
        if (add) sdp_gridder_subgrid_add(grid.mem, ou, ov, sub.mem, factor, &st);
        else sdp_gridder_subgrid_cut_out(grid.mem, ou, ov, sub.mem, &st);
        MC_CHECK(!st, "subgrid-status", "status %d", (int) st);
        MC_CHECK((add ? sub.bytes() : grid.bytes()) == keep, "subgrid-input", "input modified");
        cmp(add ? "subgrid_add" : "subgrid_cut_out", add ? grid : sub, w, 60 * eps_of(t));
    }
}

static void g05_misc()
{
    int op = mc::choose(8, "op");
    sdp_Error st = SDP_SUCCESS;
    if (op == 0)
    {
        mc::context("image_to_flmn");
        struct { sdp_MemType i, d; } T[] = {{SDP_MEM_DOUBLE, SDP_MEM_DOUBLE}, {SDP_MEM_FLOAT, SDP_MEM_FLOAT}, {SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_DOUBLE},
            {SDP_MEM_COMPLEX_FLOAT, SDP_MEM_FLOAT}, {SDP_MEM_COMPLEX_FLOAT, SDP_MEM_DOUBLE}};
        auto tt = T[mc::choose(5, "types")];
        int big = mc::choose(3, "large"), n0 = big ? 40 : mc::range(1, 4, "n0"), n1 = big == 2 ? 40 : big ? 67 : mc::range(1, 4, "n1"), lay = mc::choose(3, "layout");
        int sh = mc::choose(3, "shear"); double hu = sh == 1 ? 0.1 : sh == 2 ? -0.3 : 0, hv = sh == 1 ? 0.2 : 0;
        double theta = mc::pick({0.1, 0.4}, "theta");
        bool all = mc::flip("all"), tap = !all && n0 == n1 && mc::flip("taper");
        Arr img(tt.i, {n0, n1}, LAY[lay]);
        for (int pat = 0; pat < (all ? 1 : big ? 600 : std::min(1 << (n0 * n1), 512)); pat += big ? 150 : 1)
        {
            int nz = 0;
            for (int k = 0; k < n0 * n1; ++k)
            {
                bool on = big ? fabs(hashval(k, 5)) * 500 < pat : pat >> (k % 9) & 1;
                img.set(k, on ? cd(1 + hashval(k, 3) * 0.5, cplx(tt.i) ? 0.25 : 0) : cd(0));
                nz += on;
            }
            mc::calls(2);
            int64_t cnt = sdp_gridder_count_nonzero_pixels(img.mem, &st);
            MC_CHECK(!st && cnt == nz, "count-nonzero", "counted %d of %d non-zero pixels in %s", (int) cnt, nz, shape_str(img.shape).c_str());
            int rows = all ? n0 * n1 : nz;
            Arr flux(SDP_MEM_DOUBLE, {rows}), lmn(tt.d, {rows, 3}, LAY[lay]), taper(SDP_MEM_DOUBLE, {n0});
            for (int k = 0; k < n0; ++k) taper.set(k, 0.5 + 0.1 * k);
            sdp_gridder_image_to_flmn(img.mem, theta, hu, hv, tap ? taper.mem : NULL, all ? NULL : flux.mem, lmn.mem, &st);
            MC_CHECK(!st, "flmn-status", "status %d", (int) st);
            int k = 0;
            for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j)
            {
                if (!all && img.get({i, j}) == cd(0)) continue;
                double l = (i - n0 / 2) * theta / n0, m = (j - n1 / 2) * theta / n1, nn = o_n(l, m, hu, hv);
                double e = t_is_single(tt.d) ? 1e-7 : 1e-15;
                MC_CHECK(fabs(lmn.re({k, 0}) - l) <= e && fabs(lmn.re({k, 1}) - m) <= e && fabs(lmn.re({k, 2}) - nn) <= 4 * e, "flmn-coord",
                        "pixel (%d, %d) of %s: (%g, %g, %g) expected (%g, %g, %g)", i, j, shape_str(img.shape).c_str(), lmn.re({k, 0}), lmn.re({k, 1}), lmn.re({k, 2}), l, m, nn);
                if (!all) MC_CHECK(fabs(flux.re({k}) - img.get({i, j}).real() * (tap ? (0.5 + 0.1 * i) * (0.5 + 0.1 * j) : 1)) <= 1e-14, "flmn-flux",
                            "pixel (%d, %d) flux %g", i, j, flux.re({k}));
                ++k;
            }
            mc::state(hash_vals(lmn.all()));
        }
    }
    else if (op == 1)
    {
        mc::context("determine_w_step");
        for (double theta : {0.01, 0.1, 0.5}) for (double fr : {0.5, 0.8, 1.0}) for (double hu : {0.0, 0.1, -0.2}) for (double hv : {0.0, 0.05}) for (double x0 : {0.0, 0.5, 1.0})
        {
            double fov = theta * fr, mn = 0; mc::calls();
            double r = sdp_gridder_determine_w_step(theta, fov, hu, hv, x0);
            for (int a : {-1, 1}) for (int b : {-1, 1}) mn = std::min(mn, o_n(a * fov / 2, b * fov / 2, hu, hv));
            double w = (x0 == 0 ? fr : x0) / (-2 * mn);
            MC_CHECK(fabs(r - w) <= 1e-9 * w, "w_step", "theta %g fov %g shear %g %g x0 %g: %.12g expected %.12g", theta, fov, hu, hv, x0, r, w);
            mc::state((uint64_t) (r * 1e6));
        }
    }
    else if (op == 2)
    {
        bool ps = mc::flip("pswf");
        mc::context(ps ? "make_pswf_kernel" : "make_kernel");
        sdp_MemType t = mc::flip("float") ? SDP_MEM_FLOAT : SDP_MEM_DOUBLE;
        int sup = mc::range(1, mc::quick() ? 11 : 17, "support"), ov = mc::pick({1, 2, 3, 8, 16}, "oversample"), lay = mc::choose(3, "layout");
        if (sup == (mc::quick() ? 11 : 17)) sup = ps ? 16 : 70;
        Arr win(t, {sup}, LAY[lay]), ker(t, {ov + 1, sup}, LAY[lay]);
        std::vector<double> w(sup);
        if (ps)
        {
            PswfOracle o(0, sup * (M_PI / 2));
            for (int i = 0; i < sup; ++i) w[i] = (sup % 2 == 0 && i == 0) ? 1e-15 : o(2.0 * (i - sup / 2) / sup);
            if (sup % 2 && sup > 1) {} // odd sizes: first element is a regular sample
        }
        else for (int i = 0; i < sup; ++i) { win.set(i, hashval(i, 9)); w[i] = win.get(i).real(); }
        mc::calls();
        if (ps) sdp_gridder_make_pswf_kernel(sup, ker.mem, &st);
        else sdp_gridder_make_kernel(win.mem, ker.mem, &st);
        MC_CHECK(!st, "kernel-status", "status %d", (int) st);
        std::vector<cd> want;
        for (int i = 0; i <= ov; ++i) for (int s = 0; s < sup; ++s)
        {
            long double u = s - sup / 2 + 1 - (long double) i / ov, v = 0;
            for (int k = 0; k < sup; ++k) v += w[k] * cosl(2 * M_PIl * u * (k - sup / 2) / sup);
            want.push_back((double) (v / sup));
        }
        cmp(ps ? "make_pswf_kernel" : "make_kernel", ker, want, t == SDP_MEM_FLOAT ? 1e-6 : ps ? (sup > 12 ? 1e-9 : 2e-11) : 1e-14);
        if (ps && sup % 2 == 0 && t == SDP_MEM_DOUBLE)
            for (int s = 0; s < sup; ++s) MC_CHECK(fabs(ker.re({0, s}) - ker.re({ov, (s + 1) % sup})) < 1e-10 || s == sup - 1, "kernel-continuity", "rows 0 and %d do not join", ov);
    }
    else if (op == 3)
    {
        mc::context("make_w_pattern");
        int n = mc::range(1, 10, "n"), lay = mc::choose(3, "layout");
        if (n == 10) n = 70;
        double hu = mc::pick({0.0, 0.1}, "hu"), hv = mc::pick({0.0, -0.3}, "hv"), ws = mc::pick({0.0, 10.0, -250.0}, "w_step"), th = mc::pick({0.05, 0.4}, "theta");
        Arr p(SDP_MEM_COMPLEX_DOUBLE, {n, n}, LAY[lay]);
        mc::calls();
        sdp_gridder_make_w_pattern(n, th, hu, hv, ws, p.mem, &st);
        MC_CHECK(!st, "w_pattern-status", "status %d", (int) st);
        std::vector<cd> w;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) w.push_back(std::polar(1.0, 2 * M_PI * ws * o_n((i - n / 2) * th / n, (j - n / 2) * th / n, hu, hv)));
        cmp("make_w_pattern", p, w, 1e-11);
    }
    else if (op == 4)
    {
        mc::context("shift_subgrids");
        sdp_MemType t = mc::flip("float") ? SDP_MEM_COMPLEX_FLOAT : SDP_MEM_COMPLEX_DOUBLE;
        Shape s = mc::flip("large") ? Shape{9, 70, 33} : Shape{mc::range(1, 5, "planes"), mc::range(1, 4, "n"), mc::range(1, 4, "m")};
        Arr a(t, s, LAY[mc::choose(3, "layout")]);
        fill_hash(a, 4);
        auto w = a.all(); int64_t pl = s[1] * s[2];
        for (int64_t i = 0; i + pl < (int64_t) w.size(); ++i) w[i] = w[i + pl];
        mc::calls();
        sdp_gridder_shift_subgrids(a.mem, &st);
        MC_CHECK(!st, "shift-status", "status %d", (int) st);
        cmp("shift_subgrids", a, w, 0);
    }
    else if (op == 5)
    {
        mc::context("sum_diff");
        int n = mc::range(1, 7, "n"), lay = mc::choose(3, "layout"), step = 1;
        if (n == 7) { n = 1000; step = 251; }
        Arr a(SDP_MEM_INT, {n}, LAY[lay]), b(SDP_MEM_INT, {n}, LAY[2 - lay]);
        bool big = mc::flip("big");
        for (int i = 0; i < n; ++i) { a.set(i, big ? 1500000000 : i * i + 3); b.set(i, big ? 0 : i * 5 - 2); }
        for (int r0 = -1; r0 <= n; r0 += step) for (int r1 = r0 < 0 ? -1 : r0; r1 <= n; r1 += step)
        {
            int64_t r = 99, w = 0; mc::calls();
            sdp_gridder_sum_diff(a.mem, b.mem, &r, r0, r1, &st);
            for (int i = r0 < 0 || r1 < 0 ? 0 : r0; i < (r0 < 0 || r1 < 0 ? n : r1); ++i) w += (int64_t) (a.re({i}) - b.re({i}));
            MC_CHECK(!st && r == w, "sum_diff", "rows [%d, %d): %lld expected %lld", r0, r1, (long long) r, (long long) w);
            mc::state(r);
        }
    }
    else if (op == 6)
    {
        mc::context("uvw_bounds");
        sdp_MemType t = mc::flip("float") ? SDP_MEM_FLOAT : SDP_MEM_DOUBLE;
        int lay = mc::choose(3, "layout");
        double f0 = mc::pick({C_0, 1e8}, "f0"), df = mc::pick({0.0, 1e6, C_0}, "df");
        const int n = mc::flip("large") ? 700 : 3;
        Arr uvw(t, {n, 3}, LAY[lay]), s(SDP_MEM_INT, {n}, LAY[lay]), e(SDP_MEM_INT, {n}, LAY[lay]);
        for (int i = 0; i < n; ++i)
        {
            if (n > 3)
            {
                s.set(i, i % 4); e.set(i, 2 + i % 7);
                for (int d = 0; d < 3; ++d) uvw.set({i, d}, 50 * hashval(i, 70 + d));
                continue;
            }
            int c = mc::choose(i == 0 ? 5 : 4, "range");
            s.set(i, c == 1 ? 2 : 0); e.set(i, c == 0 ? 4 : c == 1 ? 5 : c == 2 ? 1 : c == 3 ? 0 : -1);
            int sg = mc::choose(3, "sign");
            for (int d = 0; d < 3; ++d) uvw.set({i, d}, (sg == 0 ? 1 : sg == 1 ? -1 : 0) * (1 + i + 3.5 * d) * (d == 1 ? -1 : 1));
        }
        double mn[3], mx[3], wn[3], wx[3];
        for (int d = 0; d < 3; ++d) { wn[d] = INFINITY; wx[d] = -INFINITY; }
        for (int i = 0; i < n; ++i) for (int c = (int) s.re({i}); c < (int) e.re({i}); ++c) for (int d = 0; d < 3; ++d)
        {
            double x = uvw.re({i, d}) * (f0 + c * df) / C_0;
            wn[d] = std::min(wn[d], x); wx[d] = std::max(wx[d], x);
        }
        mc::calls();
        sdp_gridder_uvw_bounds_all(uvw.mem, f0, df, s.mem, e.mem, mn, mx, &st);
        for (int d = 0; d < 3; ++d)
        {
            bool ok = !st && (wn[d] == mn[d] || fabs(wn[d] - mn[d]) <= 1e-9 * (1 + fabs(wn[d]))) && (wx[d] == mx[d] || fabs(wx[d] - mx[d]) <= 1e-9 * (1 + fabs(wx[d])));
            MC_CHECK(ok, "uvw_bounds", "dim %d: [%g, %g] expected [%g, %g]", d, mn[d], mx[d], wn[d], wx[d]);
        }
        mc::state(mc::fnv(mn, sizeof mn));
    }
    else
    {
        mc::context("lm_to_n");
        for (double l = -0.4; l <= 0.4; l += 0.05) for (double m = -0.4; m <= 0.4; m += 0.05) for (double hu : {0.0, 0.1, -0.3}) for (double hv : {0.0, 0.2})
        {
            mc::calls();
            double r = lm_to_n(l, m, hu, hv), w = o_n(l, m, hu, hv);
            MC_CHECK(fabs(r - w) <= 1e-14, "lm_to_n", "(%g, %g): %.15g expected %.15g", l, m, r, w);
            mc::state((uint64_t) (int64_t) (r * 1e9));
        }
    }
}

static double o_corr(PswfOracle& lm, PswfOracle* n, int size, double theta, double w_step, double hu, double hv, int pl, int pm)
{
    auto v = [&](int p) { return size % 2 == 0 && p == -size / 2 ? 1e-15 : lm(2.0 * p / size); };
    double x = v(pl) * v(pm);
    if (n)
    {
        double nx = fabs(o_n(pl * theta / size, pm * theta / size, hu, hv) * 2 * w_step);
        if (nx < 1) x *= (*n)(nx);
    }
    return 1 / x;
}

static void g06()
{
    int op = mc::choose(2, "op");
    sdp_MemType t = FT4[mc::choose(4, "type")];
    int size = mc::quick() ? mc::pick({4, 7, 8}, "image") : mc::pick({4, 7, 8, 16, 25}, "image");
    const bool large = size == 8 && mc::flip("large");
    if (large) size = 90;
    int n0 = large ? 40 : mc::range(1, std::min(size, 6), "n0"), n1 = large ? mc::pick({33, 70}, "n1") : mc::quick() ? mc::pick({1, 4}, "n1") : mc::pick({1, 2, 3, 4}, "n1"), lay = mc::choose(3, "layout");
    double theta = mc::pick({0.05, 0.3}, "theta"), ws = mc::pick({5.0, 60.0}, "w_step");
    int sh = mc::choose(2, "shear"); double hu = sh ? 0.1 : 0, hv = sh ? -0.2 : 0;
    if (large && (lay || !sh || theta > 0.1 || ws < 10)) mc::infeasible();
    int sup = op == 0 ? (mc::quick() ? mc::pick({4, 9}, "support") : mc::pick({4, 8, 11, 16}, "support")) : 0, wsup = op == 0 ? mc::pick({0, 4, 8}, "w_support") : 0;
    int woff = op == 1 ? mc::choose(7, "w_offset") - 3 : 0, inv = op == 1 ? mc::choose(2, "inverse") : 0;
    static std::map<int, std::unique_ptr<PswfOracle>> cache;
    for (int x : {sup, wsup}) if (!cache[x]) cache[x].reset(new PswfOracle(0, x * (M_PI / 2)));
    PswfOracle& lm = *cache[sup]; PswfOracle& nn = *cache[wsup];
    for (int ol = -size / 2 + n0 / 2; ol - n0 / 2 + n0 - 1 <= (size - 1) / 2 - (size % 2 == 0 ? 0 : 0); ++ol)
    {
        if (ol - n0 / 2 + size / 2 < 0 || ol - n0 / 2 + n0 - 1 + size / 2 >= size || (large && ol % 13)) continue;
        for (int om : {0, 1, -1, -size / 2 + n1 / 2})
        {
            if (om - n1 / 2 + size / 2 < 0 || om - n1 / 2 + n1 - 1 + size / 2 >= size) continue;
            Arr f(t, {n0, n1}, LAY[lay]);
            fill_hash(f, 3);
            std::vector<cd> w = f.all();
            for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j)
            {
                int pl = i - n0 / 2 + ol, pm = j - n1 / 2 + om;
                if (op == 0) w[i * n1 + j] *= o_corr(lm, wsup ? &nn : 0, size, theta, ws, hu, hv, pl, pm);
                else
                {
                    double ph = 2 * M_PI * ws * woff * o_n(pl * theta / size, pm * theta / size, hu, hv);
                    w[i * n1 + j] *= std::polar(1.0, inv ? ph : -ph);
                }
            }
            sdp_Error st = SDP_SUCCESS;
            std::string bf = f.bytes();
            mc::calls();
            if (op == 0)
            {
                mc::context("grid_correct_pswf");
                sdp_gridder_grid_correct_pswf(size, theta, ws, hu, hv, sup, wsup, f.mem, ol, om, &st);
            }
            else
            {
                mc::context("grid_correct_w_stack");
                sdp_gridder_grid_correct_w_stack(size, theta, ws, hu, hv, f.mem, ol, om, woff, inv, &st);
                if (!cplx(t))
                {
                    MC_CHECK(f.bytes() == bf, "w_stack-real", "a real facet was modified");
                    continue;
                }
            }
            MC_CHECK(!st, "correct-status", "status %d", (int) st);
            cmp(op == 0 ? "grid_correct_pswf" : "grid_correct_w_stack", f, w, t_is_single(t) ? 1e-5 : 1e-9);
        }
    }
}

// ---------------------------------------------------------------- G01 -----
static void g01()
{
    bool grid = mc::flip("grid"), single = mc::flip("single");
    mc::context(grid ? "direct_grid" : "direct_degrid");
    int n = mc::pick({2, 4, 6, 34}, "subgrid"), size = n == 34 ? 64 : 16;
    const bool large = n == 34;
    double theta = mc::pick({0.1, 0.3}, "theta"), ws = 10;
    int sh = mc::choose(2, "shear"); double hu = sh ? 0.1 : 0, hv = sh ? -0.2 : 0;
    int off = mc::choose(4, "offset");
    int ou = off == 1 ? 3 : off == 3 ? -2 : 0, ov = off >= 2 ? -4 : 0, ow = off == 2 ? 1 : off == 3 ? -2 : 0;
    double f0 = 1e8, df = mc::pick({0.0, 5e6}, "df");
    int lay = mc::choose(3, "layout");
    const int nr = large ? 37 : 3, nc = large ? 5 : 3;
    sdp_MemType rt = single ? SDP_MEM_FLOAT : SDP_MEM_DOUBLE, ct = single ? SDP_MEM_COMPLEX_FLOAT : SDP_MEM_COMPLEX_DOUBLE;
    // direct degridding of complex single images needs fluxes in double and directions of the coordinates' type
    Arr uvw(rt, {nr, 3}, LAY[lay]), vis(ct, {nr, nc}, LAY[lay]), img(ct, {n, n}, LAY[lay]);
    for (int i = 0; i < nr; ++i) for (int d = 0; d < 3; ++d) uvw.set({i, d}, (d == 2 ? 10 : 30) * hashval(i * 3 + d, 5));
    Arr s(SDP_MEM_INT, {nr}, LAY[lay]), e(SDP_MEM_INT, {nr}, LAY[lay]);
    for (int i = 0; i < nr; ++i)
    {
        static const int R[][2] = {{0, 3}, {1, 2}, {2, 3}, {0, 1}, {2, 2}, {3, 0}, {0, 0}};
        int c = i == 0 ? mc::choose(7, "range") : (i * 2 + 1) % 7;
        s.set(i, R[c][0]); e.set(i, R[c][1] + (large && c == 0 ? 2 : 0));
    }
    if (large && (lay || !sh || theta < 0.2 || off % 2 == 0 || s.re({0}) == 1 || s.re({0}) == e.re({0}))) mc::infeasible();
    PswfOracle o(0, 8 * (M_PI / 2));
    auto taper = [&](int i) { return i == 0 ? 1e-15 : o(2.0 * (i - n / 2) / n); };
    auto phase = [&](int r, int c, int i, int j) {
        double iw = (f0 + df * c) / C_0;
        double u = uvw.re({r, 0}) * iw - ou / theta, v = uvw.re({r, 1}) * iw - ov / theta, w = uvw.re({r, 2}) * iw - ow * ws;
        double l = (i - n / 2) * theta / n, m = (j - n / 2) * theta / n;
        return 2 * M_PI * (u * l + v * m + w * o_n(l, m, hu, hv));
    };
    sdp_Error st = SDP_SUCCESS;
    sdp_GridderDirect* plan = sdp_gridder_direct_create(size, n, theta, ws, hu, hv, 8, &st);
    MC_CHECK(plan && !st, "direct-create", "status %d", (int) st);
    MC_CHECK(sdp_gridder_direct_image_size(plan) == size && sdp_gridder_direct_subgrid_size(plan) == n && sdp_gridder_direct_theta(plan) == theta &&
            sdp_gridder_direct_w_step(plan) == ws && sdp_gridder_direct_shear_u(plan) == hu && sdp_gridder_direct_shear_v(plan) == hv &&
            sdp_gridder_direct_support(plan) == 8, "direct-accessors", "parameters not kept");
    double tol = single ? 3e-4 : 1e-11;
    auto in = [&](int r, int c) { return c >= s.re({r}) && c < e.re({r}); };
    int nb = large ? 0 : grid ? nr * nc : n * n;
    for (int basis = -1; basis < nb; ++basis)
    {
        fill_hash(vis, 1); fill_hash(img, 2);
        if (!grid) for (int64_t k = 0; k < img.size(); ++k) img.set(k, img.get(k).real()); // intensities are real
        if (basis >= 0)
        {
            (grid ? vis : img).fill(0);
            (grid ? vis : img).set(basis, grid ? cd(0.5, -1) : cd(0.75));
        }
        std::vector<cd> w = grid ? img.all() : vis.all();
        for (int r = 0; r < nr; ++r) for (int c = 0; c < nc; ++c) if (in(r, c)) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
        {
            cd ph = std::polar(taper(i) * taper(j), grid ? phase(r, c, i, j) : -phase(r, c, i, j));
            if (grid) w[i * n + j] += vis.get({r, c}) * ph;
            else w[r * nc + c] += img.get({i, j}) * ph;
        }
        std::string keep = grid ? vis.bytes() : img.bytes(), bu = uvw.bytes();
        mc::calls();
        if (grid) sdp_gridder_direct_grid(plan, vis.mem, uvw.mem, s.mem, e.mem, f0, df, img.mem, ou, ov, ow, &st);
        else sdp_gridder_direct_degrid(plan, img.mem, ou, ov, ow, f0, df, uvw.mem, s.mem, e.mem, vis.mem, &st);
        MC_CHECK(!st, "direct-status", "status %d", (int) st);
        MC_CHECK((grid ? vis.bytes() : img.bytes()) == keep && uvw.bytes() == bu, "direct-input", "input modified");
        cmp(grid ? "direct_grid" : "direct_degrid", grid ? img : vis, w, tol);
    }
    sdp_gridder_direct_free(plan);
    sdp_gridder_direct_free(NULL);
}

static void body()
{
    if (mc::prop("K01")) k01();
    else if (mc::prop("G05")) { int p = mc::choose(3, "part"); if (p == 0) g05_arrays(); else if (p == 1) g05_subgrid(); else g05_misc(); }
    else if (mc::prop("G06")) g06();
    else if (mc::prop("G01")) g01();
}
MC_MAIN(body)
