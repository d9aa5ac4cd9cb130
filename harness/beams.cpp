// U02: custom degridding.   B01: element beams (dipole, spherical waves).   B02: station beam.
#include "mc/arr.hpp"
#include "ska-sdp-func/grid_data/sdp_degrid_uvw_custom.h"
#include "ska-sdp-func/station_beam/sdp_element_dipole.h"
#include "ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.h"
#include "ska-sdp-func/station_beam/sdp_station.h"

typedef long double ld;
typedef std::complex<ld> cl;
static const double C0 = 299792458.0;
static const cd MARK(-7.25, 3.5);

// ---------------------------------------------------------------- U02 -----
static void u02()
{
    mc::context("custom degridding");
    static const int NX[] = {6, 7, 8, 9, 12}, NY[] = {6, 9, 7, 8, 5};
    const int gi = mc::choose(mc::quick() ? 4 : 5, "grid");
    const int X = NX[gi], Y = NY[gi];
    const int K = mc::range(1, 5, "kernel size");
    const int os = mc::pick({1, 2, 3, 4}, "oversampling");
    const int wos = mc::pick({1, 2, 3}, "w oversampling");
    static const int ZW[][2] = {{1, 1}, {2, 2}, {4, 4}, {4, 3}};
    const int* zw = ZW[mc::choose(4, "planes")];
    const int Z = zw[0], KW = zw[1];
    static const int SH[][3] = {{1, 1, 1}, {1, 2, 4}, {2, 1, 4}, {2, 3, 1}}; // times, channels, pols
    const int* sh = SH[mc::choose(mc::quick() ? 3 : 4, "shape")];
    const int T = sh[0], C = sh[1], P = sh[2];
    const int conj = mc::flip("conjugate");
    const double theta = mc::pick({0.125, 0.01}, "theta"), wstep = mc::pick({8.0, 250.0}, "wstep");
    const bool step_down = C > 1 && mc::flip("frequencies descend");
    // every oversampled position of u crossed with every one of v; w takes every residue in turn
    std::vector<double> xs, ys, ws;
    for (int p = -(X / 2 + 1) * os; p <= (X - X / 2 + 1) * os; ++p) xs.push_back((p + 0.45 * (p % 2 ? 1 : -1)) / os);
    for (int p = -(Y / 2 + 1) * os; p <= (Y - Y / 2 + 1) * os; ++p) ys.push_back((p - 0.45 * (p % 3 ? 1 : -1)) / os);
    xs.push_back(1e7); xs.push_back(-1e7); ys.push_back(-1e7); ys.push_back(0);
    for (int p = -5 * wos; p <= 4 * wos; ++p) ws.push_back((p + 0.3) / wos);
    ws.push_back(1e4 + 0.1); ws.push_back(-1e4 - 0.1);
    const int B = (int) (xs.size() * ys.size());
    std::vector<double> pu(T * B), pv(T * B), pw(T * B);
    Arr uvw(SDP_MEM_DOUBLE, {T, B, 3}), grid(SDP_MEM_COMPLEX_DOUBLE, {C, Z, Y, X, P});
    Arr ku(SDP_MEM_DOUBLE, {os, K}), kw(SDP_MEM_DOUBLE, {wos, KW}), vis(SDP_MEM_COMPLEX_DOUBLE, {T, B, C, P});
    const double f0 = C0 * (step_down ? 2.0 : 1.0), df = C > 1 ? (step_down ? -0.5 : 1.0) * C0 : 0.25 * C0;
    for (int t = 0; t < T; ++t) for (int b = 0; b < B; ++b)
    {
        const int r = t * B + b;
        pu[r] = xs[b % xs.size()]; pv[r] = ys[b / xs.size()]; pw[r] = ws[(r * 7 + t) % ws.size()];
        if (step_down) { pu[r] /= 2; pv[r] /= 2; }
        uvw.set(3 * r, pu[r] / theta); uvw.set(3 * r + 1, pv[r] / theta); uvw.set(3 * r + 2, pw[r] * wstep);
    }
    fill_hash(grid, 3); fill_hash(ku, 5); fill_hash(kw, 7); vis.fill(MARK);
    std::string b1 = uvw.bytes(), b2 = grid.bytes(), b3 = ku.bytes(), b4 = kw.bytes();
    sdp_Error st = SDP_SUCCESS;
    mc::calls();
    sdp_degrid_uvw_custom(grid.mem, uvw.mem, ku.mem, kw.mem, theta, wstep, f0, df, conj, vis.mem, &st);
    MC_CHECK(!st, "degrid-status", "status %d", (int) st);
    MC_CHECK(b1 == uvw.bytes() && b2 == grid.bytes() && b3 == ku.bytes() && b4 == kw.bytes(), "degrid-inputs", "an input was modified");
    const int half = K / 2;
    long done = 0;
    auto home = [](ld pos, int n, int over, int& h, int& frac) {
        const ld q = pos * over, p = roundl(q);
        h = (int) ceill(p / over); frac = (int) (h * (ld) over - p);
        h += n / 2;
        return fabsl(fabsl(q - p) - 0.5L) > 1e-6;
    };
    for (int r = 0; r < T * B; ++r) for (int c = 0; c < C; ++c)
    {
        const ld f = (f0 + (ld) c * df) / C0;
        const ld u = (ld) uvw.get(3 * r).real() * f * theta, v = (ld) uvw.get(3 * r + 1).real() * f * theta;
        const ld w = (ld) uvw.get(3 * r + 2).real() * f / wstep;
        bool judged = true, inside = false; int hx = 0, hy = 0, fx = 0, fy = 0;
        if (fabsl(u) < 1e5 && fabsl(v) < 1e5)
        {
            judged = home(u, X, os, hx, fx) && home(v, Y, os, hy, fy);
            inside = hx > half && hx < X - half && hy > half && hy < Y - half;
        }
        const ld q = (1 + w) * wos, p = roundl(q);
        if (!judged || fabsl(fabsl(q - p) - 0.5L) < 1e-6) continue;
        const int64_t pm = (int64_t) p; const int fw = (int) (((-pm) % wos + wos) % wos);
        done += inside;
        for (int k = 0; k < P; ++k)
        {
            cl s = 0; ld tot = 1e-30L;
            if (inside) for (int z = 0; z < KW; ++z) for (int y = 0; y < K; ++y) for (int x = 0; x < K; ++x)
            {
                const cd g = grid.get((((int64_t) (c * Z + z) * Y + hy - half + y) * X + hx - half + x) * P + k);
                const ld m = (ld) ku.get(fx * K + x).real() * ku.get(fy * K + y).real() * kw.get(fw * KW + z).real();
                s += m * cl(g.real(), g.imag()); tot += fabsl(m) * std::abs(g);
            }
            if (conj) s = std::conj(s);
            const cd got = vis.get(((int64_t) r * C + c) * P + k), want = inside ? cd((double) s.real(), (double) s.imag()) : MARK;
            MC_CHECK(std::abs(got - want) <= 1e-13 * (double) tot, inside ? "degrid-value" : "degrid-outside",
                    "grid %dx%d kernel %d/%d w %d/%d position (%Lg,%Lg,%Lg) channel %d pol %d: (%.10g,%.10g), expected (%.10g,%.10g)",
                    X, Y, K, os, KW, wos, u, v, w, c, k, got.real(), got.imag(), want.real(), want.imag());
        }
    }
    mc::state(mc::fnv(&done, sizeof done, hash_vals(vis.all())));
}

// ---------------------------------------------------------------- B01 -----
static void dip(ld kl, ld theta, ld phi, ld& et, ld& ep, ld& den)
{
    const ld c = cosl(phi), s = sinl(theta);
    den = 1 - c * c * s * s;
    if (den < 1e-12L) { et = ep = 0; return; }
    const ld t = (cosl(kl * c * s) - cosl(kl)) / den;
    et = -c * cosl(theta) * t; ep = sinl(phi) * t;
}

static void b01_dipole()
{
    mc::context("dipole");
    const sdp_MemType pt = mc::flip("float") ? SDP_MEM_FLOAT : SDP_MEM_DOUBLE;
    const bool flt = pt == SDP_MEM_FLOAT;
    const int lay = mc::choose(5, "output shape");
    const bool pol = lay >= 3;
    const double freq = mc::pick({50e6, 100e6, 333e6}, "frequency"), len = mc::pick({0.1, 1.5, 2.9979}, "length");
    static const double TH[] = {0, 1e-3, 0.4, 0.785398163397448310, 1.2, 1.5707963267948966, 2.0, 3.0, 3.14159265358979312};
    static const int NT = 9, NPH = 19; // phi: multiples of 30 degrees either way, over a turn
    const int blk = mc::choose(3, "points"); // none, one of them, all
    std::vector<std::pair<double, double>> pts;
    if (blk == 1) pts.push_back({TH[mc::choose(NT, "theta")], (mc::choose(NPH, "phi") - 6) * M_PI / 6});
    if (blk == 2) for (int i = 0; i < NT; ++i) for (int j = 0; j < NPH; ++j) pts.push_back({TH[i], (j - 6) * M_PI / 6});
    const int N = (int) pts.size();
    const int stride = pol ? mc::pick({2, 3, 4, 8}, "stride") : mc::pick({1, 2, 4, 5}, "stride");
    const int off = mc::pick({0, 1, 2, 5}, "offset");
    const int need = std::max(1, off + std::max(0, N - 1) * stride + (pol ? 2 : 1));
    const int rows = (need + 3) / 4 + mc::choose(2, "spare");
    const sdp_MemType ct = (sdp_MemType) (pt | SDP_MEM_COMPLEX);
    Arr th(pt, {std::max(N, 1)}), ph(pt, {std::max(N, 1)}), out;
    switch (lay)
    {
    case 0: out.init(ct, {need}, L_C); break;
    case 1: out.init(ct, {rows * 4, 1}, L_C); break;
    case 2: out.init(ct, {rows * 2, 2}, L_C); break;
    case 3: out.init(ct, {rows, 4}, L_C); break;
    default: out.init(ct, {rows, 2, 2}, L_C); break;
    }
    for (int i = 0; i < N; ++i) { th.set(i, pts[i].first); ph.set(i, pts[i].second); }
    out.fill(MARK);
    sdp_Error st = SDP_SUCCESS;
    mc::calls();
    sdp_element_beam_dipole(N, th.mem, ph.mem, freq, len, stride, off, out.mem, &st);
    MC_CHECK(!st, "dipole-status", "status %d for %d points, stride %d, offset %d, output %s", (int) st, N, stride, off, shape_str(out.shape).c_str());
    const ld kl = (ld) len * M_PIl * freq / C0;
    std::vector<cd> want(out.size(), MARK); std::vector<double> tol(out.size(), 0);
    const double eps = flt ? 6e-8 : 1.2e-16;
    for (int i = 0; i < N; ++i)
    {
        const ld t = th.get(i).real(), p = ph.get(i).real();
        ld et, ep, d; dip(kl, t, p, et, ep, d);
        const int k = off + i * stride;
        // cancellation in the numerator and in the denominator
        auto slack = [&](ld den, ld v) { return den < (flt ? 1e-4 : 1e-9) ? (flt ? 1e-3 : 1e-6) : (double) ((20 * (1 + kl) + 20 * fabsl(v)) * eps / den); };
        if (pol)
        {
            want[k] = (double) et; want[k + 1] = (double) ep;
            tol[k] = slack(d, et); tol[k + 1] = slack(d, ep);
        }
        else
        {
            ld yt, yp, d2; dip(kl, t, p + M_PIl / 2, yt, yp, d2);
            const ld a = sqrtl((et * et + ep * ep + yt * yt + yp * yp) / 2);
            want[k] = (double) a; tol[k] = slack(d, et) + slack(d2, yt) + slack(d, ep) + slack(d2, yp);
        }
    }
    for (int64_t i = 0; i < out.size(); ++i)
        MC_CHECK(std::abs(out.get(i) - want[i]) <= tol[i], tol[i] ? "dipole-value" : "dipole-other",
                "%d points stride %d offset %d frequency %g length %g: element %d is (%.10g,%.10g), expected (%.10g,%.10g) +- %g", N, stride, off,
                freq, len, (int) i, out.get(i).real(), out.get(i).imag(), want[i].real(), want[i].imag(), tol[i]);
    mc::state(hash_vals(out.all(), 1e-4));
}

// derivatives of Legendre polynomials, from their coefficients
static std::vector<ld> legendre(int l, int m)
{
    std::vector<std::vector<ld>> P(l + 2);
    P[0] = {1}; P[1] = {0, 1};
    for (int n = 1; n < l; ++n)
    {
        P[n + 1].assign(n + 2, 0);
        for (int i = 0; i <= n; ++i) P[n + 1][i + 1] += (2 * n + 1) * P[n][i] / (n + 1);
        for (int i = 0; i < n; ++i) P[n + 1][i] -= n * P[n - 1][i] / (n + 1);
    }
    std::vector<ld> q = P[l];
    for (int k = 0; k < m; ++k)
    {
        std::vector<ld> d(std::max<size_t>(1, q.size() - 1), 0);
        for (size_t i = 1; i < q.size(); ++i) d[i - 1] = i * q[i];
        q = d;
    }
    return q;
}
static ld polyval(const std::vector<ld>& q, ld x) { ld s = 0; for (int i = (int) q.size() - 1; i >= 0; --i) s = s * x + q[i]; return s; }

static void b01_harp()
{
    mc::context("spherical waves");
    const sdp_MemType pt = mc::flip("float") ? SDP_MEM_FLOAT : SDP_MEM_DOUBLE;
    const bool flt = pt == SDP_MEM_FLOAT;
    const int L = mc::range(0, mc::quick() ? 5 : 8, "maximum degree");
    const int nc = (L + 1) * (L + 1) - 1;
    // one coefficient at a time (real and imaginary), then all of them
    const int basis = mc::choose(4 * nc + 1, "coefficient");
    const bool imag = basis < 4 * nc && mc::flip("imaginary");
    const int off = mc::pick({0, 1, 3}, "offset"), lay = mc::choose(2, "output shape");
    const int nan_at = mc::choose(3, "nan"); // none, first, last point has no direction
    static const double TH[] = {0, 5e-6, 1e-3, 0.3, 1.0, 1.5707963267948966, 2.2, 3.0};
    std::vector<double> th, px, py;
    for (double t : TH) for (int j = -3; j < 8; ++j) { th.push_back(t); px.push_back(j * 0.8); py.push_back(j * 1.1 + 0.5); }
    const int N = (int) th.size() - mc::choose(2, "fewer points"); // arrays may be longer than the number of points
    const sdp_MemType ct = (sdp_MemType) (pt | SDP_MEM_COMPLEX);
    Arr aT(pt, {(int64_t) th.size()}), aX(pt, {(int64_t) th.size()}), aY(pt, {(int64_t) th.size()}), co(ct, {std::max(nc, 1), 4}), out;
    if (lay) out.init(ct, {N + off + 1, 2, 2}, L_C); else out.init(ct, {N + off, 4}, L_C);
    if (nan_at == 1) px[0] = py[0] = NAN;
    if (nan_at == 2) px[N - 1] = NAN;
    for (size_t i = 0; i < th.size(); ++i) { aT.set(i, th[i]); aX.set(i, px[i]); aY.set(i, py[i]); }
    if (basis < 4 * nc) co.set(basis, imag ? cd(0, 1) : cd(1, 0)); else fill_hash(co, 9);
    out.fill(MARK);
    sdp_Error st = SDP_SUCCESS;
    mc::calls();
    sdp_element_beam_spherical_wave_harp(N, aT.mem, aX.mem, aY.mem, L, co.mem, off, out.mem, &st);
    MC_CHECK(!st, "harp-status", "status %d", (int) st);
    const double eps = flt ? 6e-8 : 1.2e-16;
    for (int64_t i = 0; i < out.size() / 4; ++i)
    {
        if (i < off || i >= N + off)
        {
            for (int k = 0; k < 4; ++k) MC_CHECK(out.get(4 * i + k) == MARK, "harp-other", "element %d.%d outside the range was written", (int) i, k);
            continue;
        }
        const int p = (int) i - off;
        if (std::isnan(px[p]))
        {
            for (int k = 0; k < 4; ++k)
            {
                const cd g = out.get(4 * i + k);
                MC_CHECK(std::isnan(g.real()) && std::isnan(g.imag()), "harp-nan", "a point without a direction got (%g,%g)", g.real(), g.imag());
            }
            continue;
        }
        const ld t = std::max((ld) aT.get(p).real(), (ld) 1e-5), c = cosl(t), s = sinl(t);
        cl w[4] = {0, 0, 0, 0}; ld tol[4] = {0, 0, 0, 0};
        for (int l = 1; l <= L; ++l) for (int m = -l; m <= l; ++m)
        {
            const int am = std::abs(m), ix = l * l - 1 + l + m;
            bool any = false;
            for (int k = 0; k < 4; ++k) any |= co.get(4 * ix + k) != cd(0, 0);
            if (!any) continue;
            ld f = (2 * l + 1) / (4 * M_PIl * l * (l + 1));
            for (int k = l - am + 1; k <= l + am; ++k) f /= k;
            const ld nf = sqrtl(f), sg = am % 2 ? -1 : 1;
            const std::vector<ld> q = legendre(l, am), dq = legendre(l, am + 1);
            const ld Q = polyval(q, c), D = polyval(dq, c);
            const ld pds = am ? sg * powl(s, am - 1) * Q : 0;
            const ld dth = sg * ((am ? am * powl(s, am - 1) * c * Q : 0) - powl(s, am + 1) * D); // dP/dtheta
            ld mx = 0; for (ld z : q) mx += fabsl(z);
            const ld slack = 40 * l * l * nf * eps * (mx / s * (am ? powl(s, std::max(0, am)) : 1) + 1);
            for (int a = 0; a < 2; ++a)
            {
                const ld ang = m * (ld) (a ? aY : aX).get(p).real();
                const cl e(cosl(ang), sinl(ang));
                const cl qq = nf * dth * e, dd = cl(0, 1) * (ld) m * nf * pds * e;
                const cd te_ = co.get(4 * ix + 2 * a), tm_ = co.get(4 * ix + 2 * a + 1);
                const cl te(te_.real(), te_.imag()), tm(tm_.real(), tm_.imag());
                w[2 * a] += qq * tm - dd * te;
                w[2 * a + 1] += dd * tm + qq * te;
                for (int k = 0; k < 2; ++k) tol[2 * a + k] += slack * (1 + fabsl(ang)) * (std::abs(te) + std::abs(tm));
            }
        }
        for (int k = 0; k < 4; ++k)
        {
            const cd g = out.get(4 * i + k);
            const ld d = std::abs(cl(g.real(), g.imag()) - w[k]);
            MC_CHECK(d <= tol[k], "harp-value", "degree %d coefficient %d%s theta %g phi (%g,%g) component %d is (%.9g,%.9g), expected (%.9Lg,%.9Lg) +- %.3Lg",
                    L, basis, imag ? "i" : "", th[p], px[p], py[p], k, g.real(), g.imag(), w[k].real(), w[k].imag(), tol[k]);
        }
    }
    if (!nan_at) mc::state(hash_vals(out.all(), 1e-4));
}

// ---------------------------------------------------------------- B02 -----
static void b02()
{
    mc::context("station beam");
    const sdp_MemType pt = mc::flip("float") ? SDP_MEM_FLOAT : SDP_MEM_DOUBLE;
    const bool flt = pt == SDP_MEM_FLOAT;
    const int lay = mc::choose(4, "output shape"); // (n), (n,1), (n,4), (n,2,2)
    const bool pol = lay >= 2; const int P = pol ? 4 : 1;
    const bool large = mc::flip("large"); // more elements, kinds of elements and points than a byte can count
    const int E = large ? 300 : mc::range(1, mc::quick() ? 3 : 4, "elements");
    const int N = large ? (mc::quick() ? 261 : mc::pick({3, 261, 70000}, "points")) : mc::pick({0, 1, 2, 4, 5}, "points");
    const int offp = large ? 1 : mc::pick({0, 1, 3}, "offset of points"), offo = large ? 2 : mc::pick({0, 2}, "offset of output");
    const int evx = pol ? mc::flip("x") : 1, evy = pol ? mc::flip("y") : 1;
    const bool norm = mc::flip("normalise");
    const bool hasz = large || mc::flip("z");
    const int data = mc::choose(3, "element beams"); // none (no array), one per element, fewer with indices
    const double wn = large ? 2.0 : mc::pick({0.05, 2.0}, "wavenumber");
    const int types = data == 2 ? (large ? 280 : mc::range(1, 2, "types")) : E;
    std::vector<int> idx(E, 0);
    if (data == 2) for (int e = 0; e < E; ++e) idx[e] = large ? (e * 89 + 7) % types : mc::choose(types, "type");
    const int blay = data ? mc::choose(2, "beam shape") : 0;
    const sdp_MemType ct = (sdp_MemType) (pt | SDP_MEM_COMPLEX);
    Arr w(ct, {E}), ex(pt, {E}), ey(pt, {E}), ez(pt, {E}), px(pt, {std::max(1, N + offp)}), py(pt, {std::max(1, N + offp)}), pz, ix, eb, out;
    fill_hash(w, 1); fill_hash(ex, 2, 10); fill_hash(ey, 3, 10); fill_hash(ez, 4, 10); fill_hash(px, 5); fill_hash(py, 6);
    if (hasz) { pz.init(pt, {std::max(1, N + offp)}, L_C); fill_hash(pz, 7); }
    if (data == 2) { ix.init(SDP_MEM_INT, {E}, L_C); for (int e = 0; e < E; ++e) ix.set(e, idx[e]); }
    if (data)
    {
        const int n = std::max(N, 1);
        if (pol) { if (blay) eb.init(ct, {types, n, 2, 2}, L_C); else eb.init(ct, {types, n, 4}, L_C); }
        else { if (blay) eb.init(ct, {types, n, 1}, L_C); else eb.init(ct, {types, n}, L_C); }
        fill_hash(eb, 8);
    }
    const int n = N + offo + 1;
    switch (lay)
    {
    case 0: out.init(ct, {n}, L_C); break;
    case 1: out.init(ct, {n, 1}, L_C); break;
    case 2: out.init(ct, {n, 4}, L_C); break;
    default: out.init(ct, {n, 2, 2}, L_C); break;
    }
    out.fill(MARK);
    sdp_Error st = SDP_SUCCESS;
    const int64_t none[] = {0};
    sdp_Mem* empty = sdp_mem_create_wrapper(0, SDP_MEM_VOID, SDP_MEM_CPU, 0, none, none, &st);
    const std::string b1 = eb.bytes(), b2 = w.bytes();
    mc::calls();
    sdp_station_beam_aperture_array(wn, w.mem, ex.mem, ey.mem, ez.mem, offp, N, px.mem, py.mem, hasz ? pz.mem : empty,
            data == 2 ? ix.mem : empty, data ? eb.mem : empty, offo, out.mem, norm, evx, evy, &st);
    sdp_mem_free(empty);
    MC_CHECK(!st, "station-status", "status %d", (int) st);
    MC_CHECK(b1 == eb.bytes() && b2 == w.bytes(), "station-inputs", "an input was modified");
    for (int i = 0; i < n; ++i) for (int k = 0; k < P; ++k)
    {
        const cd got = out.get(i * P + k);
        const int p = i - offo;
        if (p < 0 || p >= N || (pol && !(k < 2 ? evx : evy)))
        {
            MC_CHECK(got == MARK, "station-other", "point %d component %d which is not asked for was written", i, k);
            continue;
        }
        cl s = 0; ld tot = 0, reach = 0;
        for (int e = 0; e < E; ++e)
        {
            const ld ph = (ld) wn * ((ld) ex.re({e}) * px.re({p + offp}) + (ld) ey.re({e}) * py.re({p + offp}) + (hasz ? (ld) ez.re({e}) * pz.re({p + offp}) : 0));
            cd d(1, 0);
            if (data) d = eb.get(((data == 2 ? idx[e] : e) * (int64_t) N + p) * P + k);
            const cd g = w.get({e});
            s += cl(cosl(ph), sinl(ph)) * cl(g.real(), g.imag()) * cl(d.real(), d.imag());
            tot += std::abs(g) * std::abs(d); reach = 40 * wn;
        }
        if (norm) { s /= E; tot /= E; }
        const double tol = (flt ? 1.2e-7 : 2.3e-16) * (double) (tot * (8 + 2 * reach));
        MC_CHECK(std::abs(got - cd((double) s.real(), (double) s.imag())) <= tol, "station-value",
                "%d elements, point %d of %d component %d is (%.9g,%.9g), expected (%.9Lg,%.9Lg)", E, p, N, k, got.real(), got.imag(), s.real(), s.imag());
    }
    mc::state(hash_vals(out.all(), 1e-5));
}

static void body()
{
    if (mc::prop("U02")) u02();
    else if (mc::prop("B02")) b02();
    else if (mc::flip("spherical waves")) b01_harp();
    else b01_dipole();
}
MC_MAIN(body)
