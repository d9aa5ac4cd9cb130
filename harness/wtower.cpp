// G02: w-towers sub-grid (de)gridding against the direct sum.   G03: gridding and degridding are exact adjoints.
// G04: whole-image w-stacking with w-towers against the direct sum.
#include <omp.h>
#include "mc/arr.hpp"
#include "harness/pswf_oracle.hpp"
#include "ska-sdp-func/grid_data/sdp_grid_wstack_wtower.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#include "ska-sdp-func/math/sdp_math_macros.h"

static const Layout LAY[] = {L_C, L_PAD, L_F};
static double o_n(double l, double m, double hu, double hv)
{
    // n of the sheared unit sphere: the root nearest zero
    long double a = hu * hu + hv * hv + 1, b = (long double) hu * l + (long double) hv * m - 1, c = (long double) l * l + (long double) m * m;
    return (double) ((sqrtl(b * b - a * c) + b) / a);
}
static PswfOracle& taper(int support)
{
    static std::map<int, std::unique_ptr<PswfOracle>> cache;
    if (!cache[support]) cache[support].reset(new PswfOracle(0, support * (M_PI / 2)));
    return *cache[support];
}
struct Cfg
{
    int n, sup, ovs, wsup, wovs;
    double theta, ws, hu, hv;
    sdp_GridderWtowerUVW* make(int image, sdp_Error* st) const
    {
        return sdp_gridder_wtower_uvw_create(image, n, theta, ws, hu, hv, sup, ovs, wsup, wovs, st);
    }
};
// aliasing level of the (truncated) kernels: a margin over the largest error seen at exact kernel samples, which is set by
// the value of the taper at the edge of the field (1.6e-2, 8.5e-4, 4.3e-5 and 2e-6)
static double alias(int s) { return s <= 4 ? 1.4e-2 : s <= 6 ? 1e-3 : s <= 8 ? 1e-4 : 1e-5; }
struct Types { sdp_MemType img, vis, uvw; };
static const Types TY[] = {
    {SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_DOUBLE},
    {SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_DOUBLE},
    {SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_FLOAT}};

// matrix element of gridding: contribution of a unit visibility at sub-grid pixel position (pu, pv) and plane position pw
// (relative to the sub-grid centre, in pixels / planes) to image pixel (i, j); bound: by how much rounding to the nearest
// kernel sample may move it
struct Row
{
    const Cfg g; std::vector<double> S, P; std::vector<double> N;
    Row(const Cfg& g) : g(g)
    {
        for (int i = 0; i < g.n; ++i) { S.push_back(taper(g.sup)(2.0 * (i - g.n / 2) / g.n)); P.push_back((double) (i - g.n / 2) / g.n); }
        for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) N.push_back(o_n(P[i] * g.theta, P[j] * g.theta, g.hu, g.hv) * g.ws);
    }
    // g.w taper of n
    double wt(int i, int j) const
    {
        double x = 2 * fabs(N[i * g.n + j]);
        return x < 1 ? taper(g.wsup)(x) : 0;
    }
    cd operator()(double pu, double pv, double pw, int i, int j) const
    {
        return std::polar(S[i] * S[j] * wt(i, j), 2 * M_PI * (pu * P[i] + pv * P[j] + pw * N[i * g.n + j]));
    }
    double bound(double du, double dv, double dw, int i, int j) const
    {
        return 2 * M_PI * (du * fabs(P[i]) + dv * fabs(P[j]) + dw * fabs(N[i * g.n + j])) * S[i] * S[j] * wt(i, j);
    }
};

static Cfg config()
{
    Cfg g;
    struct K { int n, s, w; };
    static const K Q[] = {{12, 4, 4}, {16, 8, 6}, {16, 6, 8}, {20, 10, 4}};
    const K& k = Q[mc::choose(mc::quick() ? 3 : 4, "kernel")];
    g.n = k.n; g.sup = k.s; g.wsup = k.w;
    g.ovs = mc::prop("G02") ? mc::pick({64, 6}, "oversampling") : 16;
    g.wovs = g.ovs == 6 ? 4 : 32;
    g.theta = 0.25;
    int sh = mc::choose(2, "shear");
    g.hu = sh ? 0.1 : 0; g.hv = sh ? -0.15 : 0;
    // keep |2 n w_step| below one over the whole field
    g.ws = 20;
    return g;
}

static bool fits(const Cfg& g, double p)
{
    double o = (floor(p * g.ovs + 0.5) / g.ovs);
    int i0 = (int) floor(o) + g.n / 2 - g.sup / 2 + 1;
    return i0 >= 0 && i0 + g.sup <= g.n;
}

// Positions in w which round to the end of their w-plane (see known_findings.txt): there the kernel for the start of the
// plane is used, as if the visibility were a whole plane lower. (A visibility exactly on the boundary may be in either plane.)
static bool w_end(const Cfg& g, double pw)
{
    double f = (pw - floor(pw)) * g.wovs;
    return floor(f + 0.5) >= g.wovs || fabs(pw - round(pw)) < 1e-6;
}
static double w_start(double pw) { return ceil(pw - 1e-6) - 1; }

// ---------------------------------------------------------------- G02 -----
static void g02_position()
{
    Cfg g = config();
    int t = mc::choose(3, "types");
    static const int OFF[][3] = {{0, 0, 0}, {7, -4, 2}, {-9, 3, -5}};
    const int* off = OFF[mc::choose(3, "offset")];
    if (mc::quick() && t && off != OFF[t]) mc::infeasible();
    const int lo = -g.n / 2 + g.sup / 2 - 1, hi = g.n / 2 - g.sup / 2; // cells (floor) whose footprint just does / does not fit
    int ax = mc::choose(3, "axis");
    std::vector<double> frac;
    for (double f : {0.0, 1.0, g.ovs / 2 - 0.3, g.ovs - 1.0, g.ovs - 0.3}) frac.push_back(f / g.ovs);
    std::vector<double> wfrac;
    for (double f : {0.0, 1.0, g.wovs / 2 + 0.3, g.wovs - 0.3, g.wovs - 1.0}) wfrac.push_back(f / g.wovs);
    double pu = 0.25, pv = -1.5, pw = 0.3;
    if (ax == 2) pw = mc::range(-3, 3, "plane") + wfrac[mc::choose((int) wfrac.size(), "fraction")];
    else
    {
        int c = mc::choose(7, "cell");
        int cell = c == 0 ? lo - 1 : c == 1 ? lo : c == 2 ? lo + 1 : c == 3 ? 0 : c == 4 ? -1 : c == 5 ? hi : hi + 1;
        double p = cell + frac[mc::choose((int) frac.size(), "fraction")];
        int far = c == 6 ? mc::choose(2, "far") : 0; // far outside
        if (far) p = 1e7 * (ax ? -1 : 1);
        (ax == 0 ? pu : pv) = p;
        static const double WQ[] = {0.3, -1.75, 0}, OQ[] = {0, 1.5, -1.5};
        pw = WQ[mc::choose(mc::quick() ? 2 : 3, "w")];
        (ax == 0 ? pv : pu) = OQ[mc::choose(mc::quick() ? 2 : 3, "other")];
    }
    bool in = fits(g, pu) && fits(g, pv);
    if (fabs(pu) < 1e6 && fabs(pv) < 1e6 && TY[t].uvw == SDP_MEM_FLOAT)
        for (double p : {pu, pv}) // single precision coordinates: stay away from the rounding boundary of the footprint
            if (fits(g, p + 0.02) != fits(g, p - 0.02)) mc::infeasible();
    const double k0 = off == OFF[0] ? 1 : off == OFF[1] ? 1.25 : 0.75, f0 = C_0 * k0; // (for k0 = 1 one wavelength is one metre)
    Arr uvw(TY[t].uvw, {1, 3}), s(SDP_MEM_INT, {1}), e(SDP_MEM_INT, {1}), vis(TY[t].vis, {1, 1}), img(TY[t].img, {g.n, g.n});
    uvw.set(0, (pu + off[0]) / g.theta / k0); uvw.set(1, (pv + off[1]) / g.theta / k0); uvw.set(2, (pw + off[2]) * g.ws / k0);
    e.set(0, 1);
    // what is left after storing the coordinates
    double qu = uvw.re({0, 0}) * k0 * g.theta - off[0], qv = uvw.re({0, 1}) * k0 * g.theta - off[1], qw = uvw.re({0, 2}) * k0 / g.ws - off[2];
    const bool sp = t > 0;
    static std::map<std::pair<int, double>, std::unique_ptr<Row>> rows; // one per kernel and shear
    auto& rp = rows[{g.n * 10000 + g.sup * 100 + g.wsup, g.hu}];
    if (!rp) rp.reset(new Row(g));
    const Row& R = *rp;
    sdp_Error st = SDP_SUCCESS;
    mc::context("wtower create");
    sdp_GridderWtowerUVW* plan = g.make(64, &st);
    MC_CHECK(plan && !st, "create", "status %d", (int) st);
    MC_CHECK(sdp_gridder_wtower_uvw_image_size(plan) == 64 && sdp_gridder_wtower_uvw_subgrid_size(plan) == g.n && sdp_gridder_wtower_uvw_theta(plan) == g.theta &&
            sdp_gridder_wtower_uvw_w_step(plan) == g.ws && sdp_gridder_wtower_uvw_shear_u(plan) == g.hu && sdp_gridder_wtower_uvw_shear_v(plan) == g.hv &&
            sdp_gridder_wtower_uvw_support(plan) == g.sup && sdp_gridder_wtower_uvw_oversampling(plan) == g.ovs && sdp_gridder_wtower_uvw_w_support(plan) == g.wsup &&
            sdp_gridder_wtower_uvw_w_oversampling(plan) == g.wovs && sdp_gridder_wtower_uvw_num_w_planes(plan, 0) == 0 &&
            sdp_gridder_wtower_uvw_num_w_planes(plan, 1) == 0, "accessors", "parameters not kept");
    const double al = 2 * alias(g.sup) + alias(g.wsup) + (sp ? 2e-5 : 1e-10);
    const double h = 0.5 / g.ovs * 1.02 + 1e-9, hw = 0.5 / g.wovs * 1.02 + 1e-9;
    const double eu = fabs(qu * g.ovs - round(qu * g.ovs)) < 1e-6 ? 0 : h, ev = fabs(qv * g.ovs - round(qv * g.ovs)) < 1e-6 ? 0 : h,
            ew = fabs(qw * g.wovs - round(qw * g.wovs)) < 1e-6 ? 0 : hw;
    cd V(0.5, -2);
    vis.set(0, V);
    fill_hash(img, 4, 0.01);
    std::vector<cd> before = img.all();
    mc::context("wtower grid");
    mc::calls(2);
    sdp_gridder_wtower_uvw_grid(plan, vis.mem, uvw.mem, s.mem, e.mem, f0, 0.0, img.mem, off[0], off[1], off[2], -1, -1, &st);
    MC_CHECK(!st, "grid-status", "status %d", (int) st);
    MC_CHECK(vis.get(0) == V, "grid-input", "visibility modified");
        for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j)
    {
        cd w = in ? R(qu, qv, qw, i, j) * V : cd(0);
        double tol = std::abs(V) * (in ? R.bound(eu, ev, ew, i, j) + al : sp ? 1e-6 : 1e-12);
        double d = std::abs(img.get({i, j}) - before[i * g.n + j] - w);
        if (in && w_end(g, qw) && (d > tol))
        {
            double d2 = std::abs(img.get({i, j}) - before[i * g.n + j] - R(qu, qv, w_start(qw), i, j) * V);
            double tol2 = std::abs(V) * (R.bound(eu, ev, 0, i, j) + al);
            MC_CHECK(d2 <= tol2, "grid", "pixel (%d, %d) is neither that of the visibility nor of the start of its w-plane", i, j);
            mc::note("grid-end-of-w-plane", mc::strf("visibility at w = %g planes (nearest kernel sample is the end of the w-plane) is gridded with the kernel for the start of the plane: "
                "pixel (%d, %d) differs by %g", pw, i, j, d));
            continue;
        }
        MC_CHECK(d <= tol, "grid", "visibility at (%g, %g, %g) pixels/planes from the sub-grid centre: pixel (%d, %d) changed by (%g, %g), expected (%g, %g), "
            "difference %g > %g", pu, pv, pw, i, j, (img.get({i, j}) - before[i * g.n + j]).real(), (img.get({i, j}) - before[i * g.n + j]).imag(), w.real(), w.imag(), d, tol);
    }
    mc::state(hash_vals(img.all(), 1e-4));
    // degrid dense, and three impulses
    for (int b = 0; b < 4; ++b)
    {
        fill_hash(img, 8, 1);
        int pi = b == 1 ? 0 : b == 2 ? g.n - 2 : g.n / 2 + 1, pj = b == 1 ? g.n - 1 : b == 2 ? 1 : g.n / 2;
        if (b) { img.fill(0); img.set({pi, pj}, cd(1, 0.5)); }
        std::string bi = img.bytes();
        cd w(0.25, 1), v0 = w, w2 = w; double tol = sp ? 1e-4 : 1e-9;
        for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) if (in && img.get({i, j}) != cd(0))
        {
            w += img.get({i, j}) * std::conj(R(qu, qv, qw, i, j));
            w2 += img.get({i, j}) * std::conj(R(qu, qv, w_start(qw), i, j));
            tol += std::abs(img.get({i, j})) * (R.bound(eu, ev, ew, i, j) + al);
        }
        vis.set(0, v0);
        mc::context("wtower degrid");
        mc::calls();
        sdp_gridder_wtower_uvw_degrid(plan, img.mem, off[0], off[1], off[2], f0, 0.0, uvw.mem, s.mem, e.mem, vis.mem, -1, -1, &st);
        MC_CHECK(!st, "degrid-status", "status %d", (int) st);
        MC_CHECK(img.bytes() == bi, "degrid-input", "image modified");
        double d = std::abs(vis.get(0) - w);
        if (in && d > tol && w_end(g, qw) && std::abs(vis.get(0) - w2) <= tol)
        {
            mc::note("degrid-end-of-w-plane", mc::strf("visibility at w = %g planes (nearest kernel sample is the end of the w-plane) is degridded with the kernel for the start of the "
                "plane: differs by %g", pw, d));
            d = 0;
        }
        MC_CHECK(d <= tol, "degrid", "image %d, position (%g, %g, %g): (%g, %g), expected (%g, %g), difference %g > %g", b, pu, pv, pw,
                vis.get(0).real(), vis.get(0).imag(), w.real(), w.imag(), d, tol);
        if (!in) MC_CHECK(vis.get(0) == v0, "degrid-outside", "a visibility outside the sub-grid was changed");
    }
    MC_CHECK(sdp_gridder_wtower_uvw_num_w_planes(plan, 1) > 0 && sdp_gridder_wtower_uvw_num_w_planes(plan, 2) == 0 &&
            sdp_gridder_wtower_uvw_num_w_planes(plan, -1) == 0, "num_w_planes", "%d planes", sdp_gridder_wtower_uvw_num_w_planes(plan, 1));
    sdp_gridder_wtower_uvw_free(plan);
    sdp_gridder_wtower_uvw_free(NULL);
}

// rows and channels: several rows with their own ranges of channels, ranges of rows, memory layouts
static void g02_rows()
{
    mc::context("wtower rows");
    Cfg g; g.n = 16; g.sup = 8; g.wsup = 6; g.ovs = 64; g.wovs = 32; g.theta = 0.25; g.ws = 20; g.hu = g.hv = 0;
    bool grid = mc::flip("grid");
    int t = mc::choose(3, "types"), lay = mc::choose(3, "layout");
    const int nr = 4, nc = 3;
    static const int RG[][2] = {{0, 3}, {1, 2}, {2, 3}, {0, 1}, {2, 2}, {3, 0}};
    static const int RR[][2] = {{-1, -1}, {0, 4}, {0, 2}, {1, 3}, {3, 4}, {2, 2}};
    int c0 = mc::choose(6, "range of first row"), rr = mc::choose(6, "rows");
    int sgn = mc::choose(4, "signs");
    double df = mc::pick({0.0, C_0 * 0.11, -C_0 * 0.07}, "df");
    const double k0 = df == 0 ? 1 : df > 0 ? 1.25 : 0.75, f0 = C_0 * k0;
    Arr uvw(TY[t].uvw, {nr, 3}, LAY[lay]), vis(TY[t].vis, {nr, nc}, LAY[lay]), s(SDP_MEM_INT, {nr}, LAY[lay]), e(SDP_MEM_INT, {nr}, LAY[lay]), img(TY[t].img, {g.n, g.n}, LAY[lay]);
    for (int r = 0; r < nr; ++r)
    {
        int c = r == 0 ? c0 : r == 1 ? 0 : r == 2 ? 5 : 1;
        s.set(r, RG[c][0]); e.set(r, RG[c][1]);
        // the last row crosses the edge of the usable part of the sub-grid between its channels
        double p[] = {r == 3 ? 3.9 : 2.9 * hashval(r, 1), 2.9 * hashval(r, 2), 4.3 * hashval(r, 3)};
        for (int d = 0; d < 3; ++d) uvw.set({r, d}, p[d] * ((sgn >> (d == 1)) & 1 ? -1 : 1) / (d == 2 ? 1 / g.ws : g.theta) / k0);
        for (int c = 0; c < nc; ++c) // (positions of the known finding are examined above)
            while (w_end(g, uvw.re({r, 2}) / g.ws * (k0 + c * df / C_0))) { uvw.set({r, 2}, uvw.re({r, 2}) - 0.7 * g.ws / g.wovs); c = 0; }
    }
    fill_hash(vis, 5); fill_hash(img, 6);
    std::vector<cd> w = grid ? img.all() : vis.all(), tol(w.size(), t ? 2e-4 : 1e-9);
    Row R(g);
    const double al = 2 * alias(8) + alias(6) + (t ? 2e-5 : 0);
    int r0 = RR[rr][0], r1 = RR[rr][1];
    for (int r = r0 < 0 ? 0 : r0; r < (r0 < 0 ? nr : r1); ++r) for (int c = (int) s.re({r}); c < e.re({r}); ++c)
    {
        double k = (f0 + df * c) / C_0, qu = uvw.re({r, 0}) * g.theta * k, qv = uvw.re({r, 1}) * g.theta * k, qw = uvw.re({r, 2}) / g.ws * k;
        if (!fits(g, qu) || !fits(g, qv)) continue;
        for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j)
        {
            cd m = R(qu, qv, qw, i, j); double b = R.bound(0.51 / g.ovs, 0.51 / g.ovs, 0.51 / g.wovs, i, j) + al;
            if (grid) { w[i * g.n + j] += vis.get({r, c}) * m; tol[i * g.n + j] += std::abs(vis.get({r, c})) * b; }
            else { w[r * nc + c] += img.get({i, j}) * std::conj(m); tol[r * nc + c] += std::abs(img.get({i, j})) * b; }
        }
    }
    sdp_Error st = SDP_SUCCESS;
    sdp_GridderWtowerUVW* plan = g.make(32, &st);
    std::string bi = grid ? vis.bytes() : img.bytes(), bu = uvw.bytes() + s.bytes() + e.bytes();
    mc::calls();
    if (grid) sdp_gridder_wtower_uvw_grid(plan, vis.mem, uvw.mem, s.mem, e.mem, f0, df, img.mem, 0, 0, 0, r0, r1, &st);
    else sdp_gridder_wtower_uvw_degrid(plan, img.mem, 0, 0, 0, f0, df, uvw.mem, s.mem, e.mem, vis.mem, r0, r1, &st);
    MC_CHECK(!st, "rows-status", "status %d", (int) st);
    MC_CHECK((grid ? vis.bytes() : img.bytes()) == bi && uvw.bytes() + s.bytes() + e.bytes() == bu, "rows-input", "input modified");
    std::vector<cd> o = grid ? img.all() : vis.all();
    for (size_t k = 0; k < o.size(); ++k)
        MC_CHECK(std::abs(o[k] - w[k]) <= tol[k].real(), grid ? "rows-grid" : "rows-degrid", "element %zu is (%g, %g), expected (%g, %g) +- %g", k, o[k].real(), o[k].imag(), w[k].real(), w[k].imag(), tol[k].real());
    mc::state(hash_vals(o, 1e-4));
    sdp_gridder_wtower_uvw_free(plan);
}

// ---------------------------------------------------------------- G03 -----
static void g03()
{
    Cfg g = config();
    int t = mc::choose(3, "types");
    if (mc::quick() && t == 1) mc::infeasible();
    static const int OFF[][3] = {{0, 0, 0}, {5, -6, 3}};
    const int* off = OFF[mc::choose(2, "offset")];
    double df = mc::pick({0.0, C_0 * 0.2}, "df");
    const double k0 = off == OFF[0] ? 1 : 1.5, f0 = C_0 * k0;
    const int nr = 5, nc = 2, n = g.n;
    Arr uvw(TY[t].uvw, {nr, 3}), s(SDP_MEM_INT, {nr}), e(SDP_MEM_INT, {nr});
    int set = mc::choose(mc::quick() ? 3 : 6, "rows");
    for (int r = 0; r < nr; ++r)
    {
        for (int d = 0; d < 3; ++d) uvw.set({r, d}, (off[d] + (d == 2 ? 3.5 : g.n / 2 - g.sup / 2 - 0.2) * hashval(r, 10 * set + d)) / (d == 2 ? 1 / g.ws : g.theta) / k0);
        s.set(r, 0); e.set(r, nc);
    }
    s.set(1, 1); e.set(2, 1); e.set(3, 0);
    sdp_Error st = SDP_SUCCESS;
    sdp_GridderWtowerUVW* plan = g.make(64, &st);
    // full matrices
    std::vector<cd> G(n * n * nr * nc), D(n * n * nr * nc);
    Arr vis(TY[t].vis, {nr, nc}), img(TY[t].img, {n, n});
    mc::context("wtower adjoint");
    for (int k = 0; k < nr * nc; ++k)
    {
        vis.fill(0); vis.set(k, 1); img.fill(0);
        mc::calls();
        sdp_gridder_wtower_uvw_grid(plan, vis.mem, uvw.mem, s.mem, e.mem, f0, df, img.mem, off[0], off[1], off[2], -1, -1, &st);
        for (int p = 0; p < n * n; ++p) G[p * nr * nc + k] = img.get(p);
    }
    int step = mc::quick() ? 3 : 1;
    double worst = 0;
    for (int p = mc::choose(step, "pixels"); p < n * n; p += step)
    {
        vis.fill(0); img.fill(0); img.set(p, 1);
        mc::calls();
        sdp_gridder_wtower_uvw_degrid(plan, img.mem, off[0], off[1], off[2], f0, df, uvw.mem, s.mem, e.mem, vis.mem, -1, -1, &st);
        for (int k = 0; k < nr * nc; ++k)
        {
            double d = std::abs(vis.get(k) - std::conj(G[p * nr * nc + k]));
            worst = std::max(worst, d);
            MC_CHECK(d <= (t ? 2e-5 : 1e-12), "adjoint", "pixel %d visibility %d: degridding gives (%.12g, %.12g), gridding (%.12g, %.12g)", p, k,
                    vis.get(k).real(), vis.get(k).imag(), G[p * nr * nc + k].real(), G[p * nr * nc + k].imag());
        }
    }
    MC_CHECK(!st, "adjoint-status", "status %d", (int) st);
    mc::state(hash_vals(G, 1e-5));
    sdp_gridder_wtower_uvw_free(plan);
}

// ---------------------------------------------------------------- G04 -----
static void g04()
{
    bool grid = mc::flip("grid");
    mc::context(grid ? "wstack grid" : "wstack degrid");
    int t = mc::choose(3, "types"), real = mc::choose(2, "real image");
    const int thr = mc::pick({1, 2, 3, 4, 16}, "threads");
    struct K { int image, n, s, w; double frac; };
    static const K Q[] = {{32, 16, 6, 6, 0.6}, {40, 16, 4, 4, 0.7}, {36, 28, 8, 8, 0.0}, {48, 16, 8, 8, 0.5}};
    const K& k = Q[mc::choose(mc::quick() ? 3 : 4, "kernel")];
    Cfg g; g.n = k.n; g.sup = k.s; g.wsup = k.w; g.ovs = 256; g.wovs = 256; g.theta = 0.2; g.ws = 30;
    int sh = mc::choose(2, "shear"); g.hu = sh ? 0.1 : 0; g.hv = sh ? -0.15 : 0;
    double height = mc::pick({2.0, 5.0, 3.5}, "tower height");
    int eff = (int) floor(g.n * (k.frac == 0 ? 2.0 / 3.0 : k.frac));
    int pat = mc::choose(8, "pattern");
    if (thr == 16 && ((pat != 5 && pat != 7) || real)) mc::infeasible();
    if (pat == 7 && (thr < 4 || height != 2 || sh)) mc::infeasible();
    if (mc::quick() && (t == 1 || (pat == 5 && (real || height != 2)))) mc::infeasible();
    if (mc::quick() && sh && height == 5) mc::infeasible();
    const double k0 = pat == 0 ? 1.25 : pat == 5 ? 0.75 : 1, f0 = C_0 * k0;
    double df = C_0 * 0.05;
    int nr = 12, nc = 2;
    if (pat == 3) nr = 1;
    const int edge = pat == 6 ? mc::choose(6, "edge") : 0;
    if (pat == 6 && (thr > 2 || (mc::quick() && real))) mc::infeasible();
    if (pat == 4 || pat == 6) { nc = 1; df = 0; }
    if (pat == 7) { nr = 7; nc = 6000; df = C_0 * 1e-6; } // more chunks than rows
    if (pat == 5) { nr = thr == 16 ? 20000 : 1500; nc = 3; df = C_0 * 0.02; }
    Arr uvw(TY[t].uvw, {nr, 3}), vis(TY[t].vis, {nr, nc});
    const double W = height * g.ws;
    for (int r = 0; r < nr; ++r)
    {
        double p[3];
        for (int d = 0; d < 2; ++d) p[d] = k.image * 0.4 * hashval(r, 10 * pat + d);
        p[2] = 2.2 * W * hashval(r, 10 * pat + 2);
        if (pat == 1) // exactly on the boundaries of sub-grids and towers
        {
            p[0] = (r % 4 - 1.5) * eff; p[1] = (r / 4 % 3 - 1.5) * eff; p[2] = ((r % 3) - 1.5) * W;
        }
        if (pat == 6) // the outermost coordinates on the boundaries of sub-grids and towers, or just to either side of them
        {
            static const double EPS[] = {0, 1e-9, -1e-9, 1e-6, -1e-6, 0.02};
            const double e = r < 2 ? EPS[edge] : 0, sg = r & 1 ? -1 : 1;
            if (r < 2) { p[0] = sg * (1.5 * eff > k.image / 2 ? 0.5 : 1.5) * eff + e; p[1] = -sg * 0.5 * eff + e; p[2] = sg * 1.5 * W + e * g.ws; }
            else { p[0] = fmod(p[0], 0.45 * eff); p[1] = fmod(p[1], 0.45 * eff); p[2] = fmod(p[2], 1.4 * W); }
        }
        if (pat == 2) { if (r % 3 == 0) p[0] = 0; if (r % 4 < 2) p[1] = 0; if (r % 2) p[2] = 0; } // zero coordinates
        if (pat == 4) { p[0] = -fabs(p[0]); p[1] = -fabs(p[1]); p[2] = -fabs(p[2]); }
        if ((pat == 5 && (r % 2 || r > 1500)) || pat == 7) { p[0] = fmod(p[0], eff / 2.5); p[1] = fmod(p[1], eff / 2.5); p[2] = fmod(p[2], W / 2.5); } // crowd one sub-grid
        for (int d = 0; d < 3; ++d) uvw.set({r, d}, (d == 2 ? p[d] : p[d] / g.theta) / k0);
    }
    sdp_MemType it = real ? (TY[t].img == SDP_MEM_COMPLEX_DOUBLE ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT) : TY[t].img;
    Arr img(it, {k.image, k.image});
    // the region in which the wide-field taper does not amplify the errors too much
    const int half = k.image / 4;
    struct Px { int i, j; double l, m, n; };
    std::vector<Px> px;
    int np = pat == 5 || pat == 7 ? 2 : 6;
    for (int q = 0; q < np; ++q)
    {
        int i = q == 0 ? 0 : q == 1 ? half : (int) lround(half * hashval(q, 3)), j = q == 0 ? 0 : q == 1 ? -half : (int) lround(half * hashval(q, 4));
        double l = i * g.theta / k.image, m = j * g.theta / k.image;
        px.push_back({i + k.image / 2, j + k.image / 2, l, m, o_n(l, m, g.hu, g.hv)});
    }
    auto corr = [&](const Px& a) {
        double x = 2 * fabs(a.n) * g.ws;
        return 1 / (taper(g.sup)(2 * a.l / g.theta) * taper(g.sup)(2 * a.m / g.theta) * taper(g.wsup)(x));
    };
    auto phase = [&](int r, int c, const Px& a) {
        double f = (f0 + c * df) / C_0;
        return 2 * M_PI * f * (uvw.re({r, 0}) * a.l + uvw.re({r, 1}) * a.m + uvw.re({r, 2}) * a.n);
    };
    auto end = [&](int r, int c) { return w_end(g, uvw.re({r, 2}) / g.ws * (f0 + c * df) / C_0); };
    double rel = 2 * alias(g.sup) + 2 * alias(g.wsup) + 2 * M_PI * (0.5 * 0.51 / g.ovs + 0.02 * 0.51 / g.wovs) + (t ? 3e-4 : 0);
    sdp_Error st = SDP_SUCCESS;
    std::string bu = uvw.bytes();
    mc::calls();
    if (grid)
    {
        fill_hash(vis, 9); fill_hash(img, 10);
        std::string bv = vis.bytes();
        sdp_grid_wstack_wtower_grid_all(vis.mem, f0, df, uvw.mem, g.n, g.theta, g.ws, g.hu, g.hv, g.sup, g.ovs, g.wsup, g.wovs, k.frac, height, 0, img.mem, thr, &st);
        MC_CHECK(!st, "grid-status", "status %d", (int) st);
        MC_CHECK(vis.bytes() == bv && uvw.bytes() == bu, "grid-input", "input modified");
        for (auto& a : px)
        {
            cd w = 0; double mag = 0;
            double slack = 0; // positions of the known finding (see G02)
            for (int r = 0; r < nr; ++r) for (int c = 0; c < nc; ++c)
            {
                w += vis.get({r, c}) * std::polar(1.0, phase(r, c, a)); mag += std::abs(vis.get({r, c}));
                if (end(r, c)) slack += std::abs(vis.get({r, c})) * std::min(2.0, 2.2 * M_PI * fabs(a.n) * g.ws);
            }
            if (real) w = w.real();
            double tol = slack + mag * 0.4 * rel * corr(a) / (pat == 5 || pat == 7 ? 10 : 1), d = std::abs(img.get({a.i, a.j}) - w);
            if (getenv("G04_STAT")) { FILE* fs = fopen("/tmp/stat.txt", "a"); fprintf(fs, "STATG %d %g\n", g.sup, d / tol); fclose(fs); }
            MC_CHECK(d <= tol, "grid", "pixel (%d, %d): (%g, %g), expected (%g, %g) +- %g", a.i, a.j, img.get({a.i, a.j}).real(), img.get({a.i, a.j}).imag(), w.real(), w.imag(), tol);
        }
        mc::state(hash_vals(img.all(), 1e-2));
    }
    else
    {
        double mag = 0;
        for (auto& a : px) { cd v(1 + 0.1 * a.i, real ? 0 : 0.3 * a.j - 2); img.set({a.i, a.j}, v); }
        for (auto& a : px) mag += std::abs(img.get({a.i, a.j})) * corr(a);
        fill_hash(vis, 11);
        std::string bi = img.bytes();
        sdp_grid_wstack_wtower_degrid_all(img.mem, f0, df, uvw.mem, g.n, g.theta, g.ws, g.hu, g.hv, g.sup, g.ovs, g.wsup, g.wovs, k.frac, height, 0, vis.mem, thr, &st);
        MC_CHECK(!st, "degrid-status", "status %d", (int) st);
        MC_CHECK(img.bytes() == bi && uvw.bytes() == bu, "degrid-input", "input modified");
        for (int r = 0; r < nr; ++r) for (int c = 0; c < nc; ++c)
        {
            if (end(r, c)) continue; // position of the known finding (see G02)
            cd w = 0;
            std::set<std::pair<int, int>> seen;
            for (auto& a : px) if (seen.insert({a.i, a.j}).second) w += img.get({a.i, a.j}) * std::polar(1.0, -phase(r, c, a));
            double tol = mag * 0.4 * rel, d = std::abs(vis.get({r, c}) - w);
            if (getenv("G04_STAT")) { FILE* fs = fopen("/tmp/stat.txt", "a"); fprintf(fs, "STATD %d %g\n", g.sup, d / tol); fclose(fs); }
            MC_CHECK(d <= tol, "degrid", "row %d channel %d: (%g, %g), expected (%g, %g) +- %g", r, c, vis.get({r, c}).real(), vis.get({r, c}).imag(), w.real(), w.imag(), tol);
        }
        mc::state(hash_vals(vis.all(), 1e-2));
    }
}

static void body()
{
    if (mc::prop("G02")) { if (mc::flip("rows")) g02_rows(); else g02_position(); }
    else if (mc::prop("G03")) g03();
    else if (mc::prop("G04")) g04();
}
MC_MAIN(body)
