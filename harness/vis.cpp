// W01: visibility weighting.   L01: flagger.   Q01: tiling.   R01: phase rotation.   D01: direct Fourier transform.
#include "mc/arr.hpp"
#include <map>
#include "ska-sdp-func/visibility/sdp_dft.h"
#include "ska-sdp-func/visibility/sdp_flagger.h"
#include "ska-sdp-func/visibility/sdp_phase_rotate.h"
#include "ska-sdp-func/visibility/sdp_tiled_functions.h"
#include "ska-sdp-func/visibility/sdp_weighting.h"

static const double C0 = 299792458.0;
typedef long double ld;

// ---------------------------------------------------------------- W01 -----
static void w01()
{
    mc::context("weighting");
    const bool briggs = mc::flip("briggs");
    const sdp_MemType wt = mc::flip("float weights") ? SDP_MEM_FLOAT : SDP_MEM_DOUBLE;
    const bool large = mc::flip("large");
    const int G = large ? mc::pick({64, 131}, "grid") : mc::range(1, mc::quick() ? 4 : 5, "grid");
    static const int SH[][4] = {{1, 1, 1, 1}, {1, 2, 1, 4}, {2, 1, 2, 1}, {1, 3, 1, 1}, {2, 2, 2, 2}, {3, 1, 3, 1}, {7, 37, 9, 4}, {70, 3, 2, 1}, {1, 300, 70, 2}, {1300, 2, 3, 1}, {3, 5, 4, 7}};
    const int* sh = SH[large ? 6 + mc::choose(5, "shape") : mc::choose(mc::quick() ? 5 : 6, "shape")];
    const int T = sh[0], B = sh[1], C = sh[2], P = sh[3], rows = T * B;
    const double robust = briggs ? mc::pick({-2.0, 0.5, 2.0}, "robust") : 0;
    const double mx = mc::pick({8.0, 12345.678}, "max_abs_uv");
    const int half = G / 2;
    std::vector<double> ff;
    for (int c = 0; c < C; ++c) ff.push_back(c % 3 == 0 ? 1.0 : c % 3 == 1 ? 0.5 : 0.25);
    // positions in units of cells from the centre of the grid
    std::vector<double> xs;
    for (int i = -1; i <= G; ++i) xs.push_back(i - half + 0.4375);
    if (mx == 8.0) { xs.push_back(-half); xs.push_back(G - half); xs.push_back(0); }
    xs.push_back(-1e6);
    std::vector<std::pair<double, double>> pos(rows);
    for (int r = 0; r < rows; ++r)
    {
        if (large)
        {
            // crowded near the centre, thin near and beyond the edges
            const double a = hashval(r, 21), b = hashval(r, 22), q = r % 5 == 0 ? 0.55 : 0.08;
            // inside the cells, and just inside either edge of a cell
            static const double in_cell[] = {0.4375, 1e-9, 1 - 1e-9, 0.75};
            pos[r] = {std::floor(a * q * G) + in_cell[r % 4], std::floor(b * q * G) + in_cell[r / 4 % 4]};
        }
        else if (r == 0 || (r == 1 && rows == 2 && !mc::quick()))
        {
            pos[r].first = mc::pick(xs, "u");
            pos[r].second = mc::pick(xs, "v");
        }
        else
        {
            switch (mc::choose(5, "row"))
            {
            case 0: pos[r] = pos[0]; break;
            case 1: pos[r] = {pos[0].second, pos[0].first}; break;
            case 2: pos[r] = {pos[0].first, 0.4375}; break;
            case 3: pos[r] = {-0.5625, pos[0].second}; break;
            default: pos[r] = {G - half - 0.5625, -half + 0.4375}; break;
            }
        }
    }
    Arr uvw(SDP_MEM_DOUBLE, {T, B, 3}), freq(SDP_MEM_DOUBLE, {C}), grid(wt, {G, G, P});
    Arr in(wt, {T, B, C, P}), out(wt, {T, B, C, P});
    const double scale = half ? mx / half : mx;
    for (int r = 0; r < rows; ++r)
    {
        uvw.set(3 * r, pos[r].first * scale); uvw.set(3 * r + 1, pos[r].second * scale); uvw.set(3 * r + 2, 1e3 * r);
    }
    for (int c = 0; c < C; ++c) freq.set(c, C0 * ff[c]);
    for (int64_t i = 0; i < in.size(); ++i) in.set(i, 1.0 + 0.5 * (1 + hashval(i, 3)));
    out.fill(-7.25);
    std::string b1 = uvw.bytes(), b2 = freq.bytes(), b3 = in.bytes();
    sdp_Error st = SDP_SUCCESS;
    mc::calls();
    if (briggs) sdp_weighting_briggs(uvw.mem, freq.mem, mx, robust, grid.mem, in.mem, out.mem, &st);
    else sdp_weighting_uniform(uvw.mem, freq.mem, mx, grid.mem, in.mem, out.mem, &st);
    MC_CHECK(!st, "weight-status", "status %d", (int) st);
    MC_CHECK(b1 == uvw.bytes() && b2 == freq.bytes() && b3 == in.bytes(), "weight-inputs", "an input was modified");
    // oracle
    std::vector<ld> g(G * G * P, 0);
    auto cell = [&](int r, int c, int64_t& iu, int64_t& iv) {
        double f = half ? ff[c] : 0;
        iu = (int64_t) std::floor(pos[r].first * f) + half; iv = (int64_t) std::floor(pos[r].second * f) + half;
        return iu >= 0 && iv >= 0 && iu < G && iv < G;
    };
    int64_t iu, iv;
    for (int r = 0; r < rows; ++r) for (int c = 0; c < C; ++c) if (cell(r, c, iu, iv))
        for (int p = 0; p < P; ++p) g[(iu * G + iv) * P + p] += in.get((r * C + c) * P + p).real();
    ld sw = 0, sw2 = 0;
    for (int r = 0; r < rows; ++r) for (int c = 0; c < C; ++c) if (cell(r, c, iu, iv))
        for (int p = 0; p < P; ++p) { ld x = g[(iu * G + iv) * P + p]; sw += x; sw2 += x * x; }
    const ld R = sw > 0 ? powl(5.0L * powl(10.0L, -robust), 2) * sw / sw2 : 0;
    const double tol = t_is_single(wt) ? 4e-6 : 1e-12;
    for (int i = 0; i < G * G * P; ++i)
        MC_CHECK(fabsl(grid.get(i).real() - g[i]) <= tol * (1 + fabsl(g[i])), "weight-grid",
                "%s grid %d cell (%d,%d) pol %d holds %g, the weights of its visibilities sum to %Lg", briggs ? "briggs" : "uniform",
                G, i / P / G, i / P % G, i % P, grid.get(i).real(), g[i]);
    int inside = 0;
    for (int r = 0; r < rows; ++r) for (int c = 0; c < C; ++c)
    {
        const bool ok = cell(r, c, iu, iv);
        inside += ok;
        for (int p = 0; p < P; ++p)
        {
            const int64_t k = (r * C + c) * P + p;
            ld want = -7.25;
            if (ok)
            {
                ld x = g[(iu * G + iv) * P + p];
                want = briggs ? (ld) in.get(k).real() / (1 + R * x) : 1 / x;
            }
            MC_CHECK(fabsl(out.get(k).real() - want) <= tol * fabsl(want), "weight-out",
                    "%s grid %d row %d channel %d pol %d at cell (%ld,%ld): weight %.9g, expected %.9Lg", briggs ? "briggs" : "uniform",
                    G, r, c, p, (long) iu, (long) iv, out.get(k).real(), want);
        }
    }
    mc::state(mc::fnv(&inside, sizeof inside, hash_vals(out.all())));
}

// ---------------------------------------------------------------- L01 -----
static void l01()
{
    mc::context("flagger");
    // A history is the table of amplitudes [time][channel] of one baseline and polarisation;
    // many histories are packed into the baselines and polarisations of one call.
    const int mode = mc::choose(3, "histories"); // 0: all patterns of a small table, 1: a few outliers in a larger table, 2: long tables
    const sdp_MemType vt = mc::flip("float") ? SDP_MEM_COMPLEX_FLOAT : SDP_MEM_COMPLEX_DOUBLE;
    int T, C; std::vector<double> amp;
    if (mode == 0)
    {
        static const int TC[][2] = {{1, 1}, {1, 4}, {2, 2}, {3, 2}, {2, 3}, {6, 1}, {2, 4}, {4, 2}, {3, 3}};
        const int* s = TC[mc::choose(mc::quick() ? 7 : 9, "table")];
        T = s[0]; C = s[1]; amp = {1, 2, 9};
    }
    else if (mode == 2)
    {
        static const int TC[][2] = {{3, 140}, {40, 33}, {70, 5}};
        const int* s = TC[mc::choose(3, "table")];
        T = s[0]; C = s[1];
    }
    else
    {
        static const int TC[][2] = {{3, 6}, {5, 4}, {4, 8}, {7, 5}};
        const int* s = TC[mc::choose(mc::quick() ? 2 : 4, "table")];
        T = s[0]; C = s[1]; amp = {3, 40};
    }
    const int sampling = mode == 2 ? mc::pick({1, 3, 11}, "sampling step") : mc::pick({1, 2, 3}, "sampling step");
    if (sampling > C) mc::infeasible();
    const int window = mode == 2 ? mc::pick({0, 7, 200}, "window") : mc::pick({0, 1, 2}, "window");
    const int hist = mode == 2 ? mc::pick({2, 20, 100}, "median history") : mc::pick({1, 2, 3, 9}, "median history");
    if (mode != 2 && hist == 9 && (window == 2 || sampling == 2)) mc::infeasible();
    static const double TH[][4] = {{0.5, 3.5, 3.5, 3.5}, {0.25, 0.6, 1e9, 1e9}, {0.75, 1e9, 0.7, 1e9}, {1.0, 1e9, 1e9, 0.6}, {0.5, 5e5, 5e5, 5e5}};
    const double* th = TH[mc::choose(5, "thresholds")];
    // number of histories
    std::vector<std::vector<double>> H;
    const int n = T * C;
    if (mode == 0)
    {
        long tot = 1; for (int i = 0; i < n; ++i) tot *= 3;
        for (long h = 0; h < tot; ++h)
        {
            std::vector<double> a(n); long x = h;
            for (int i = 0; i < n; ++i) { a[i] = amp[x % 3]; x /= 3; }
            H.push_back(a);
        }
    }
    else if (mode == 2)
    {
        for (int h = 0; h < 12; ++h)
        {
            std::vector<double> b(n);
            for (int i = 0; i < n; ++i) b[i] = 8 + hashval(i, 40 + h) + (std::fabs(hashval(i, 90 + h)) > 0.995 ? 5 : 0) + (h % 3 == 2 && (i / C) % 17 == 16 ? 20 : 0);
            H.push_back(b);
        }
    }
    else
    {
        const int base = mc::choose(3, "base");
        std::vector<double> b(n);
        for (int i = 0; i < n; ++i) b[i] = base == 0 ? 8 : base == 1 ? 8 + (i % 3) : 8 + 2 * (i / C) + ((i * 7) % 5);
        H.push_back(b);
        for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) for (double x : amp) for (double y : amp)
        {
            auto a = b; a[i] = x; a[j] = y; H.push_back(a);
        }
        for (int t = 0; t < T; ++t) for (int d = 0; d < 2; ++d) { auto a = b; for (int c = 0; c < C; ++c) a[t * C + c] = d ? 40 : 2; H.push_back(a); }
    }
    const int P = mc::pick({1, 2}, "pols");
    const int B = (int) ((H.size() + P - 1) / P);
    Arr vis(vt, {T, B, C, P}), flags(SDP_MEM_INT, {T, B, C, P});
    for (int b = 0; b < B; ++b) for (int p = 0; p < P; ++p)
    {
        const auto& a = H[std::min((size_t) (b * P + p), H.size() - 1)];
        for (int t = 0; t < T; ++t) for (int c = 0; c < C; ++c)
        {
            // the phase of a visibility does not matter
            static const cd PH[] = {1, cd(0, 1), -1, cd(0, -1)};
            vis.set({t, b, c, p}, a[t * C + c] * PH[(t + 3 * c + b) & 3]);
            flags.set({t, b, c, p}, (b * 5 + t * 3 + c) % 11 == 0 ? 1 : 0);
        }
    }
    std::string before = vis.bytes();
    Arr init(SDP_MEM_INT, {T, B, C, P});
    for (int64_t i = 0; i < init.size(); ++i) init.set(i, flags.get(i));
    sdp_Error st = SDP_SUCCESS;
    mc::calls();
    sdp_flagger_dynamic_threshold(vis.mem, flags.mem, th[0], th[1], th[2], th[3], sampling, window, hist, &st);
    MC_CHECK(!st, "flag-status", "status %d", (int) st);
    MC_CHECK(before == vis.bytes(), "flag-inputs", "the visibilities were modified");
    // oracle
    const int ns = C / sampling;
    auto med = [](std::vector<double> v) { std::sort(v.begin(), v.end()); return v[v.size() / 2]; };
    auto mad = [&](const std::vector<double>& v, double m) { std::vector<double> d; for (double x : v) d.push_back(std::fabs(x - m)); return med(d); };
    auto z = [](double m, double d, double x) { return d == 0 ? (x == m ? 0.0 : 1e7) : 0.6795 * (x - m) / d; };
    bool unsure = false;
    auto over = [&](double zz, double t) { if (std::fabs(std::fabs(zz) - t) < 1e-9) unsure = true; return zz > t || zz < -t; };
    std::map<std::string, int> verdicts;
    for (size_t h = 0; h < H.size(); ++h)
    {
        const auto& a = H[h];
        const int b = (int) h / P, p = (int) h % P;
        std::vector<int> want(n, 0);
        auto mark = [&](int t, int c) { for (int k = std::max(0, c - window); k <= std::min(C - 1, c + window); ++k) want[t * C + k] = 1; };
        std::vector<double> mh, score(C, 0);
        unsure = false;
        for (int t = 0; t < T; ++t)
        {
            std::vector<double> s;
            for (int k = 0; k < ns; ++k) s.push_back(a[t * C + k * sampling]);
            const double m = med(s), d = mad(s, m);
            mh.push_back(m);
            std::vector<double> w(mh.end() - std::min((int) mh.size(), hist), mh.end());
            const double mm = med(w), md = mad(w, mm);
            const bool broad = t != 0 && over(z(mm, md, m), th[3]);
            for (int c = 0; c < C; ++c) if (broad || over(z(m, d, a[t * C + c]), th[1])) mark(t, c);
            if (!t) continue;
            std::vector<double> ss;
            for (int c = 0; c < C; ++c)
            {
                const double r = std::fabs(a[t * C + c] - a[(t - 1) * C + c]);
                score[c] = t == 1 ? r : th[0] * r + (1 - th[0]) * score[c];
            }
            for (int k = 0; k < ns; ++k) ss.push_back(score[k * sampling]);
            const double vm = med(ss), vd = mad(ss, m); // deviation about the amplitude median: see DESIGN.md
            for (int c = 0; c < C; ++c) if (over(z(vm, vd, score[c]), th[2])) { mark(t, c); mark(t - 1, c); }
        }
        if (unsure) continue;
        std::string v;
        for (int t = 0; t < T; ++t) for (int c = 0; c < C; ++c)
        {
            const int got = (int) flags.re({t, b, c, p}), was = (int) init.re({t, b, c, p});
            const int exp = want[t * C + c] || was ? 1 : 0;
            v += (char) ('0' + want[t * C + c]);
            if (got != exp)
            {
                std::string tab;
                for (int i = 0; i < n; ++i) tab += mc::strf("%g%s", a[i], i % C == C - 1 ? "; " : " ");
                mc::fail("flag-value", "flag at time %d channel %d is %d, expected %d: amplitudes %s sampling %d window %d history %d "
                        "alpha %g thresholds %g %g %g", t, c, got, exp, tab.c_str(), sampling, window, hist, th[0], th[1], th[2], th[3]);
            }
        }
        mc::state(v.data(), v.size());
    }
    mc::calls((long) H.size());
}

// ---------------------------------------------------------------- Q01 -----
static void q01()
{
    mc::context("tiles");
    static const int CFG[][4] = { // grid, tile u, tile v, support
        {16, 4, 4, 1}, {16, 8, 4, 0}, {17, 4, 8, 2}, {10, 4, 2, 1}, {12, 16, 4, 3}, {64, 32, 16, 4}, {48, 8, 16, 2}, {9, 2, 2, 0}, {200, 8, 4, 3}, {150, 32, 16, 5}, {1024, 8, 4, 2}};
    const bool large = mc::flip("large");
    const int* g = CFG[large ? 8 + mc::choose(3, "config") : mc::choose(mc::quick() ? 6 : 8, "config")];
    const int G = g[0]; const int64_t tu = g[1], tv = g[2], S = g[3];
    const int fn = mc::choose(3, "function"); // 0 count only, 1 count + sort, 2 count + index
    const bool flt = fn != 0 && mc::flip("float");
    const int shp = large ? 3 + mc::choose(3, "shape") : mc::choose(3, "shape");
    static const int SH[][3] = {{1, 1, 1}, {1, 2, 1}, {2, 2, 2}, {5, 40, 4}, {70, 3, 3}, {2, 5, 120}};
    const int T = SH[shp][0], B = SH[shp][1], C = SH[shp][2], rows = T * B;
    const int64_t gc = G / 2;
    const int64_t tlu = gc - gc / tu * tu - tu / 2, tlv = gc - gc / tv * tv - tv / 2;
    const int64_t ntu = (G + tu - 1) / tu, ntv = (G + tv - 1) / tv, nt = ntu * ntv;
    auto fl = [](int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); };
    // positions (in cells from the centre), rounding included
    std::vector<double> xs;
    const int step = G > 20 ? 4 : 1;
    for (int c = -1; c <= G; c += step) xs.push_back(c - gc);
    xs.push_back(S - gc); xs.push_back(S - gc - 1); xs.push_back(G - 1 - S - gc); xs.push_back(G - S - gc);
    xs.push_back(0.4375); xs.push_back(-0.4375); xs.push_back(1.5625); xs.push_back(-2.5625);
    // halves, which round away from the centre, where the calculation of the position is exact
    const bool halves = !flt && (G == 16 || G == 64);
    if (halves) for (double x : {0.5, -0.5, 2.5, -3.5, S - gc - 0.5, S - gc + 0.5, G - 1 - S - gc + 0.5, G - 1 - S - gc - 0.5}) xs.push_back(x);
    auto fac = [&](int c) { return shp == 5 ? (1.0 + c) / 128 : 1.0 / (1 << c); }; // frequency of a channel
    std::vector<std::pair<double, double>> pos(rows);
    for (int r = 0; r < rows; ++r)
    {
        if (large)
        {
            // (not where the tiles are known to be too few); some far outside
            const double a = hashval(r, 31) * (gc - S - tu), b = hashval(r, 32) * (gc - S - tv);
            pos[r] = {std::floor(a * 8) / 8 + 0.03125, std::floor(b * 8) / 8 + 0.03125};
            if (r % 19 == 18) pos[r].first = 3e5 + 0.03125;
            if (shp == 5 && r % 4 == 3) pos[r].first = -std::floor(gc * 1.15) - 0.03125; // outside in the highest channels only
        }
        else if (r == 0) { pos[r].first = mc::pick(xs, "u"); pos[r].second = mc::pick(xs, "v"); }
        else if (r == 1 && rows == 2) switch (mc::choose(4, "row"))
        {
        case 0: pos[r] = pos[0]; break;
        case 1: pos[r] = {pos[0].second, pos[0].first}; break;
        case 2: pos[r] = {0, pos[0].second}; break;
        default: pos[r] = {pos[0].first, 1}; break;
        }
        else pos[r] = {pos[0].first * (r & 1 ? 1 : -1), pos[0].second * (r & 2 ? 1 : -0.5)};
    }
    const double cell = 1.0 / G; // grid scale of one: positions are in wavelengths
    const sdp_MemType rt = flt ? SDP_MEM_FLOAT : SDP_MEM_DOUBLE, ct = flt ? SDP_MEM_COMPLEX_FLOAT : SDP_MEM_COMPLEX_DOUBLE;
    Arr uvw(SDP_MEM_DOUBLE, {T, B, 3}), freq(SDP_MEM_DOUBLE, {C}), vis(SDP_MEM_COMPLEX_DOUBLE, {T, B, C, 1});
    Arr fuvw(rt, {T, B, 3}), ffreq(rt, {C}), fvis(ct, {T, B, C, 1}), wgt(rt, {T, B, C, 1});
    for (int r = 0; r < rows; ++r)
    {
        uvw.set(3 * r, pos[r].first); uvw.set(3 * r + 1, pos[r].second); uvw.set(3 * r + 2, 1e5);
        for (int d = 0; d < 3; ++d) fuvw.set(3 * r + d, uvw.get(3 * r + d));
    }
    for (int c = 0; c < C; ++c) { freq.set(c, C0 * fac(c)); ffreq.set(c, C0 * fac(c)); }
    for (int64_t i = 0; i < vis.size(); ++i) { vis.set(i, cd(i + 1, -i)); fvis.set(i, cd(i + 1, -i)); wgt.set(i, 0.5 + i); }
    // single precision: C_0 is not exact in it, so positions next to a rounding boundary are left out
    // expected contributions
    struct Item { double u, v; int idx; };
    std::map<int64_t, std::vector<Item>> want; // tile -> items
    int skipped = 0; int64_t total = 0; bool beyond = false;
    for (int r = 0; r < rows; ++r) for (int c = 0; c < C; ++c)
    {
        const double pu = pos[r].first * fac(c), pv = pos[r].second * fac(c);
        if (large && (std::fabs(std::fabs(pu - std::trunc(pu)) - 0.5) < 1.5e-4 || std::fabs(std::fabs(pv - std::trunc(pv)) - 0.5) < 1.5e-4)) mc::fail("harness", "rounding boundary");
        if (!large && !halves) if (std::fabs(std::fabs(pu - std::trunc(pu)) - 0.5) < 0.01 || std::fabs(std::fabs(pv - std::trunc(pv)) - 0.5) < 0.01) mc::infeasible();
        const int64_t gu = llround(pu) + gc, gv = llround(pv) + gc;
        if (!(gu + S < G && gu >= S && gv + S < G && gv >= S)) { ++skipped; continue; }
        const int64_t u0 = fl(gu - tlu - S, tu), u1 = fl(gu - tlu + S, tu), v0 = fl(gv - tlv - S, tv), v1 = fl(gv - tlv + S, tv);
        if (u1 >= ntu || v1 >= ntv) beyond = true;
        for (int64_t y = v0; y <= v1; ++y) for (int64_t x = u0; x <= u1; ++x)
        {
            want[y * 100000 + x].push_back({pu, pv, r * C + c}); ++total;
        }
    }
    const int64_t extra = beyond ? ntu * 4 + 8 : 0; // room for what goes beyond the arrays (known finding)
    Arr off(SDP_MEM_INT, {nt + 1 + extra}), cnt(SDP_MEM_INT, {nt + extra}), skip(SDP_MEM_INT, {1});
    off.fill(5); cnt.fill(5); skip.fill(5);
    int nvis = -1;
    sdp_Error st = SDP_SUCCESS;
    std::string b1 = uvw.bytes(), b2 = freq.bytes(), b3 = vis.bytes();
    mc::calls();
    sdp_count_and_prefix_sum(uvw.mem, freq.mem, vis.mem, G, tu, tv, cell, S, &nvis, off.mem, cnt.mem, skip.mem, &st);
    MC_CHECK(!st, "tile-status", "count: status %d", (int) st);
    MC_CHECK(b1 == uvw.bytes() && b2 == freq.bytes() && b3 == vis.bytes(), "tile-inputs", "an input was modified");
    MC_CHECK((int) skip.re({0}) == skipped, "tile-skipped", "%d visibilities skipped, %d have a footprint beyond the grid", (int) skip.re({0}), skipped);
    if (beyond)
    {
        // Known finding: the tiles are shifted by half a tile, but their number does not allow for it. What is counted must
        // still be exactly the known behaviour (tile x + y*ntu, whatever row that ends up in), anything else is reported.
        std::vector<int> k(nt + extra, 0);
        for (auto& w : want) { int64_t x = w.first % 100000, y = w.first / 100000; k[y * ntu + x] += (int) w.second.size(); }
        for (int64_t i = 0; i < nt + extra; ++i)
            MC_CHECK((int) cnt.re({i}) == k[i], "tile-count", "tile %ld counts %d, %d expected", (long) i, (int) cnt.re({i}), k[i]);
        mc::note("tiles-beyond-count", mc::strf("grid %d tiles %ldx%ld: a visibility inside the grid falls in a tile beyond the %ldx%ld counted",
                G, (long) tu, (long) tv, (long) ntu, (long) ntv));
        return;
    }
    int64_t sum = 0;
    for (int64_t i = 0; i < nt; ++i)
    {
        auto it = want.find(i / ntu * 100000 + i % ntu);
        const int64_t w = it == want.end() ? 0 : (int64_t) it->second.size();
        MC_CHECK((int) cnt.re({i}) == w, "tile-count", "tile (%ld,%ld) counts %d, %ld expected", (long) (i % ntu), (long) (i / ntu), (int) cnt.re({i}), (long) w);
        MC_CHECK((int) off.re({i}) == sum, "tile-offset", "offset of tile %ld is %d, %ld expected", (long) i, (int) off.re({i}), (long) sum);
        sum += w;
    }
    MC_CHECK((int) off.re({nt}) == sum && nvis == sum, "tile-offset", "total %d / %d, %ld expected", (int) off.re({nt}), nvis, (long) sum);
    mc::state(mc::fnv(&sum, sizeof sum, hash_vals(cnt.all())));
    if (!fn) return;
    const int64_t slack = mc::flip("larger arrays") ? 3 : 0;
    const int64_t N = total + slack;
    if (N == 0) return;
    Arr su(rt, {N}), sv(rt, {N}), sw(rt, {N}), stile(SDP_MEM_INT, {N}), svis(ct, {N}), sidx(SDP_MEM_INT, {N});
    su.fill(9); sv.fill(9); sw.fill(9); stile.fill(9); svis.fill(9); sidx.fill(9);
    std::vector<int> o0; for (int64_t i = 0; i <= nt; ++i) o0.push_back((int) off.re({i}));
    mc::calls();
    if (fn == 1) sdp_bucket_sort(fuvw.mem, ffreq.mem, fvis.mem, wgt.mem, G, tu, tv, cell, S, su.mem, sv.mem, sw.mem, stile.mem, svis.mem, off.mem, &st);
    else sdp_tiled_indexing(fuvw.mem, ffreq.mem, G, tu, tv, cell, S, C, B, T, stile.mem, su.mem, sv.mem, sidx.mem, off.mem, &st);
    MC_CHECK(!st, "tile-status", "sort: status %d", (int) st);
    const double tol = flt ? 1e-5 : 1e-12;
    for (int64_t i = 0; i < nt; ++i)
    {
        auto it = want.find(i / ntu * 100000 + i % ntu);
        std::vector<Item> w; if (it != want.end()) w = it->second;
        MC_CHECK((int) off.re({i}) == o0[i] + (int) w.size(), "sort-offset", "offset of tile %ld moved from %d to %d for %zu entries", (long) i, o0[i], (int) off.re({i}), w.size());
        std::vector<char> used(w.size(), 0);
        for (int k = o0[i]; k < o0[i] + (int) w.size(); ++k)
        {
            const int64_t tl = (int64_t) stile.re({k});
            MC_CHECK(tl == i / ntu * 32768 + i % ntu, "sort-tile", "entry %d of tile (%ld,%ld) is labelled %ld", k, (long) (i % ntu), (long) (i / ntu), (long) tl);
            bool found = false;
            for (size_t q = 0; q < w.size() && !found; ++q)
            {
                if (used[q]) continue;
                const double sc = 1 + std::fabs(w[q].u) + std::fabs(w[q].v);
                if (std::fabs(su.re({k}) - w[q].u) > tol * sc || std::fabs(sv.re({k}) - w[q].v) > tol * sc) continue;
                if (fn == 1 && (svis.get(k) != fvis.get(w[q].idx) || sw.re({k}) != wgt.get(w[q].idx).real())) continue;
                if (fn == 2 && (int) sidx.re({k}) != w[q].idx) continue;
                used[q] = 1; found = true;
            }
            MC_CHECK(found, "sort-entry", "entry %d of tile (%ld,%ld): position (%g,%g) vis (%g,%g) index %d belongs to no visibility of that tile", k,
                    (long) (i % ntu), (long) (i / ntu), su.re({k}), sv.re({k}), svis.get(k).real(), svis.get(k).imag(), (int) sidx.re({k}));
        }
    }
}

// ---------------------------------------------------------------- R01 -----
static const double SKY[][2] = {{0, 0}, {0.5, 0.25}, {-0.01, -1.2}, {3.0, 1.5}, {6.2, 0}, {1.0, M_PI / 2}, {-2.5, -M_PI / 2}, {0.5, 0.2500001}};
static void r01()
{
    const bool vis = mc::flip("visibilities");
    mc::context(vis ? "rotate vis" : "rotate uvw");
    const bool large = mc::flip("large");
    const double* a = SKY[large ? 1 : mc::choose(8, "from")];
    const double* b = SKY[large ? 2 + mc::choose(2, "to") : mc::choose(8, "to")];
    const bool flt = mc::flip("float");
    static const int SH[][4] = {{1, 1, 1, 1}, {2, 3, 1, 4}, {3, 2, 4, 1}, {1, 5, 3, 4}, {7, 41, 33, 4}, {130, 3, 2, 1}, {2, 35, 140, 1}};
    const int* sh = SH[large ? 4 + mc::choose(3, "shape") : mc::choose(4, "shape")];
    const int T = sh[0], B = sh[1], C = vis ? sh[2] : 1, P = vis ? sh[3] : 1;
    const sdp_MemType rt = flt ? SDP_MEM_FLOAT : SDP_MEM_DOUBLE, ct = flt ? SDP_MEM_COMPLEX_FLOAT : SDP_MEM_COMPLEX_DOUBLE;
    sdp_SkyCoord* ca = sdp_sky_coord_create("icrs", a[0], a[1], 0);
    sdp_SkyCoord* cb = sdp_sky_coord_create("icrs", b[0], b[1], 0);
    struct Free { sdp_SkyCoord *a, *b; ~Free() { sdp_sky_coord_free(a); sdp_sky_coord_free(b); } } fr{ca, cb};
    sdp_Error st = SDP_SUCCESS;
    const ld da = -((ld) b[0] - a[0]);
    if (!vis)
    {
        // every unit vector and structureless ones: the operator is linear in each baseline separately
        const double big = mc::pick({1.0, 3.0e5}, "scale");
        Arr in(rt, {T, B, 3}), out(rt, {T, B, 3});
        const int basis = mc::choose(4, "basis");
        for (int r = 0; r < T * B; ++r) for (int d = 0; d < 3; ++d)
            in.set(3 * r + d, basis == 3 ? big * hashval(3 * r + d) : d == (basis + r) % 3 ? big * (1 + r) : 0);
        out.fill(99);
        std::string b0 = in.bytes();
        mc::calls();
        sdp_phase_rotate_uvw(ca, cb, in.mem, out.mem, &st);
        MC_CHECK(!st, "rotate-status", "status %d", (int) st);
        MC_CHECK(in.bytes() == b0, "rotate-inputs", "an input was modified");
        const ld dd = (ld) b[1] - a[1];
        for (int r = 0; r < T * B; ++r)
        {
            const ld u = in.get(3 * r).real(), v = in.get(3 * r + 1).real(), w = in.get(3 * r + 2).real();
            // -delta_ra about v, then delta_dec about u
            const ld u1 = cosl(da) * u + sinl(da) * w, w1 = -sinl(da) * u + cosl(da) * w;
            const ld e[3] = {u1, cosl(dd) * v - sinl(dd) * w1, sinl(dd) * v + cosl(dd) * w1};
            const ld len = sqrtl(u * u + v * v + w * w);
            for (int d = 0; d < 3; ++d)
                MC_CHECK(fabsl(out.get(3 * r + d).real() - e[d]) <= (flt ? 1e-6 : 2e-15) * len, "rotate-uvw",
                        "(%g,%g)->(%g,%g): coordinate %d of baseline %d is %.12g, expected %.12Lg", a[0], a[1], b[0], b[1], d, r, out.get(3 * r + d).real(), e[d]);
        }
        mc::state(hash_vals(out.all(), 1e-4));
        return;
    }
    const double f0 = mc::pick({1e8, 3.3e8}, "freq0"), df = mc::pick({0.0, 1.5e6, -2e5}, "dfreq");
    Arr uvw(rt, {T, B, 3}), in(ct, {T, B, C, P}), out(ct, {T, B, C, P});
    const double len = mc::pick({10.0, 2000.0}, "length");
    if (flt && len > 100) mc::infeasible();
    fill_hash(uvw, 1, len); fill_hash(in, 2); out.fill(99);
    std::string b0 = uvw.bytes(), b1 = in.bytes();
    mc::calls();
    sdp_phase_rotate_vis(ca, cb, f0, df, uvw.mem, in.mem, out.mem, &st);
    MC_CHECK(!st, "rotate-status", "status %d", (int) st);
    MC_CHECK(uvw.bytes() == b0 && in.bytes() == b1, "rotate-inputs", "an input was modified");
    // direction of the new centre, seen from the old one
    const ld l = -cosl(b[1]) * sinl(da), m = cosl(a[1]) * sinl(b[1]) - sinl(a[1]) * cosl(b[1]) * cosl(da);
    const ld n = sinl(a[1]) * sinl(b[1]) + cosl(a[1]) * cosl(b[1]) * cosl(da);
    for (int r = 0; r < T * B; ++r) for (int c = 0; c < C; ++c) for (int p = 0; p < P; ++p)
    {
        const ld u = uvw.get(3 * r).real(), v = uvw.get(3 * r + 1).real(), w = uvw.get(3 * r + 2).real();
        const ld k = (f0 + (ld) c * df) / C0;
        // (a source at the new centre has the conjugate of this phase in the convention of this function)
        const ld ph = -2 * M_PIl * k * (u * l + v * m + w * (n - 1));
        const int64_t i = (r * C + c) * P + p;
        const cd want = in.get(i) * cd((double) cosl(ph), (double) sinl(ph));
        const double tol = flt ? 2e-6 : 4e-15 * (1 + 4 * len * (double) k);
        MC_CHECK(std::abs(out.get(i) - want) <= tol, "rotate-vis",
                "(%g,%g)->(%g,%g): baseline %d channel %d pol %d is (%.12g,%.12g), expected (%.12g,%.12g)", a[0], a[1], b[0], b[1], r, c, p,
                out.get(i).real(), out.get(i).imag(), want.real(), want.imag());
    }
    mc::state(hash_vals(out.all(), 1e-4));
}

// ---------------------------------------------------------------- D01 -----
static void d01()
{
    const int ver = mc::choose(2, "version");
    mc::context("dft v0%d", ver);
    const bool flt = mc::flip("float vis");
    static const int SH[][5] = {{1, 1, 1, 1, 1}, {2, 3, 2, 4, 2}, {3, 1, 3, 1, 3}, {1, 4, 2, 1, 0}, {1, 2, 1, 4, 4}, {2, 9, 3, 4, 3}, {5, 37, 19, 4, 35}, {2, 35, 130, 1, 3}, {70, 3, 2, 4, 140}};
    const bool large = mc::flip("large");
    const int* sh = SH[large ? 6 + mc::choose(3, "shape") : mc::choose(mc::quick() ? 5 : 6, "shape")];
    const int T = sh[0], B = sh[1], C = sh[2], P = sh[3], N = sh[4];
    const double f0 = mc::pick({C0, 1.37e8}, "freq0"), df = mc::pick({0.0, C0 / 4, -1e6}, "dfreq");
    const double len = mc::pick({1.0, 5000.0}, "length");
    const sdp_MemType ct = flt ? SDP_MEM_COMPLEX_FLOAT : SDP_MEM_COMPLEX_DOUBLE;
    Arr dir(SDP_MEM_DOUBLE, {N, 3}), flux(SDP_MEM_COMPLEX_DOUBLE, {N, C, P}), vis(ct, {T, B, C, P});
    Arr uvw;
    if (ver == 0) uvw.init(SDP_MEM_DOUBLE, {T, B, C, 3}, L_C); else uvw.init(SDP_MEM_DOUBLE, {T, B, 3}, L_C);
    // linear in the fluxes: each flux alone (real and imaginary), or all of them together
    const int el = large ? 2 * N * C * P : mc::choose(2 * N * C * P + 1, "flux");
    if (el == 2 * N * C * P) fill_hash(flux, 5);
    else flux.set(el / 2, el & 1 ? cd(0, 2) : cd(2, 0));
    const int kind = mc::choose(3, "directions");
    for (int i = 0; i < N; ++i)
    {
        ld l = kind == 0 ? 0 : 0.3 * hashval(i, 1), m = kind == 0 ? 0 : kind == 1 ? 0.2 * hashval(i, 2) : -0.25;
        dir.set({i, 0}, (double) l); dir.set({i, 1}, (double) m); dir.set({i, 2}, (double) (kind == 2 ? sqrtl(1 - l * l - m * m) - 1 : 0.1 * hashval(i, 9)));
    }
    fill_hash(uvw, 8, len);
    vis.fill(cd(77, -77));
    std::string b0 = dir.bytes(), b1 = flux.bytes(), b2 = uvw.bytes();
    sdp_Error st = SDP_SUCCESS;
    mc::calls();
    if (ver == 0) sdp_dft_point_v00(dir.mem, flux.mem, uvw.mem, vis.mem, &st);
    else sdp_dft_point_v01(dir.mem, flux.mem, uvw.mem, f0, df, vis.mem, &st);
    MC_CHECK(!st, "dft-status", "status %d", (int) st);
    MC_CHECK(dir.bytes() == b0 && flux.bytes() == b1 && uvw.bytes() == b2, "dft-inputs", "an input was modified");
    for (int r = 0; r < T * B; ++r) for (int c = 0; c < C; ++c)
    {
        const int q = ver == 0 ? 3 * (r * C + c) : 3 * r;
        const ld k = ver == 0 ? 1 : (f0 + (ld) c * df) / C0;
        for (int p = 0; p < P; ++p)
        {
            std::complex<ld> s = 0; ld tot = 0;
            for (int i = 0; i < N; ++i)
            {
                const ld ph = -2 * M_PIl * k * ((ld) dir.re({i, 0}) * uvw.get(q).real() + (ld) dir.re({i, 1}) * uvw.get(q + 1).real() + (ld) dir.re({i, 2}) * uvw.get(q + 2).real());
                const cd f = flux.get({i, c, p});
                s += std::complex<ld>(cosl(ph), sinl(ph)) * std::complex<ld>(f.real(), f.imag());
                tot += std::abs(f);
            }
            const cd got = vis.get((r * C + c) * P + p), want((double) s.real(), (double) s.imag());
            const double tol = (flt ? 5e-7 : 1e-15 * (4 + 8 * len * (double) k)) * (double) tot;
            MC_CHECK(std::abs(got - want) <= tol, "dft-vis", "baseline %d channel %d pol %d is (%.12g,%.12g), expected (%.12g,%.12g)",
                    r, c, p, got.real(), got.imag(), want.real(), want.imag());
        }
    }
    mc::state(hash_vals(vis.all(), 1e-4));
}

static void body()
{
    if (mc::prop("W01")) w01();
    else if (mc::prop("L01")) l01();
    else if (mc::prop("Q01")) q01();
    else if (mc::prop("R01")) r01();
    else d01();
}
MC_MAIN(body)
