// C01: Hogbom CLEAN.   C02: multi-scale CLEAN.
#include "mc/arr.hpp"
#include <map>
#include <set>
#include "ska-sdp-func/clean/sdp_hogbom_clean.h"
#include "ska-sdp-func/clean/sdp_ms_clean_cornwell.h"

typedef std::vector<double> V;

static double beam_at(const V& d, int dx, int dy)
{
    const double th = d[2] * M_PI / 180, sx = d[0], sy = d[1];
    const double a = cos(th) * cos(th) / (2 * sx * sx) + sin(th) * sin(th) / (2 * sy * sy);
    const double b = sin(2 * th) / (4 * sx * sx) - sin(2 * th) / (4 * sy * sy);
    const double c = sin(th) * sin(th) / (2 * sx * sx) + cos(th) * cos(th) / (2 * sy * sy);
    return exp(-(a * dx * dx + 2 * b * dx * dy + c * dy * dy));
}

// components convolved with a beam of 'size' pixels whose centre is at pixel 'centre'
static V restore(const V& comps, int n, const V& det, int size, int centre)
{
    V out(n * n, 0.0), beam((size_t) size * size);
    for (int x = 0; x < size; ++x) for (int y = 0; y < size; ++y) beam[x * size + y] = beam_at(det, x - size / 2, y - size / 2);
    for (int c = 0; c < n * n; ++c) if (comps[c] != 0)
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
        {
            const int x = i - c / n + centre, y = j - c % n + centre;
            if (x < 0 || y < 0 || x >= size || y >= size) continue;
            out[i * n + j] += comps[c] * beam[x * size + y];
        }
    return out;
}

static double maxabs(const V& a) { double m = 0; for (double x : a) { if (!(fabs(x) <= 1e300)) return 1e300; if (fabs(x) > m) m = fabs(x); } return m; }
static double dist(const V& a, const V& b) { double m = 0; for (size_t i = 0; i < a.size(); ++i) { double d = fabs(a[i] - b[i]); if (!(d <= 1e300)) return 1e300; if (d > m) m = d; } return m; }
static V vals(const Arr& a) { V v; for (auto& x : a.all()) v.push_back(x.real()); return v; }

// the sky model must be the restored components + residual; for an even beam size the library's result is one pixel off
static void check_sky(const V& sky, const V& res, const V& comps, int n, const V& det, int size, double eps, const char* what)
{
    V good = restore(comps, n, det, size, size / 2);
    for (int i = 0; i < n * n; ++i) good[i] += res[i];
    const double scale = maxabs(comps) * std::min(n * n, size * size) + maxabs(res) + 1e-30, d = dist(sky, good);
    if (d <= eps * scale) return;
    if (size % 2 == 0)
    {
        V off = restore(comps, n, det, size, size / 2 - 1);
        for (int i = 0; i < n * n; ++i) off[i] += res[i];
        if (dist(sky, off) <= eps * scale)
        {
            mc::note("even-beam-displaced", mc::strf("%s: clean beam of %d pixels: restored components are one pixel off", what, size));
            return;
        }
    }
    mc::fail("sky-model", "%s: sky model differs from restored components + residual by %g (scale %g)", what, d, scale);
}

struct State { V res, comp; bool operator<(const State& o) const { return res != o.res ? res < o.res : comp < o.comp; } };

static void c01()
{
    static const int modes = 4;
    const int mode = mc::choose(modes, "family");
    int n, cycles; double gain, thr; V img, psf;
    const int dbl = mc::flip("double");
    if (mode < 2)
    {
        // every image over a small alphabet; all arithmetic is exact
        n = mode == 0 ? 2 : 3;
        const int A = mode == 0 ? 4 : (mc::quick() ? 2 : 3);
        static const double AL0[] = {0, 2, -1, 1}, AL1[] = {1, 3, 0};
        img.resize(n * n);
        // the first pixels are choices, the rest is a loop inside the execution
        gain = mc::pick({0.25, 0.5, 1.0}, "gain");
        thr = mc::pick({-16.0, 0.0, 0.75, 1.0, 1.5}, "threshold");
        cycles = mc::pick({1, 2, 5}, "cycles");
        const int pv = mc::choose(4, "psf");
        const int m = 2 * n;
        psf.assign(m * m, 0.0);
        for (int x = 0; x < m; ++x) for (int y = 0; y < m; ++y)
        {
            const int dx = x - n, dy = y - n; double v = 0;
            if (pv == 1) v = 1.0 / (1 << std::min(3, abs(dx) + abs(dy)));
            if (pv == 2) v = ((x * 5 + y * 3) % 7 - 3) / 8.0;
            if (pv == 3) v = dx == 1 && dy == 0 ? -0.5 : (dx == 0 && dy == -1 ? 0.75 : 0);
            psf[x * m + y] = dx == 0 && dy == 0 ? 1.0 : v;
        }
        int64_t first = mc::choose(A * A, "first pixels"), rest = 1;
        for (int i = 2; i < n * n; ++i) rest *= A;
        const int bs = mode == 0 ? mc::pick({1, 3, 4}, "beam size") : mc::pick({3, 4}, "beam size");
        const V det = {1.25, 0.75, 30.0, (double) bs};
        Arr d(dbl ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT, {n, n}), p(d.type, {m, m}), b(d.type, {4}), cm(d.type, {n, n}), rs(d.type, {n, n}), sk(d.type, {n, n});
        for (int i = 0; i < m * m; ++i) p.set(i, psf[i]);
        for (int i = 0; i < 4; ++i) b.set(i, det[i]);
        std::string pb = p.bytes(), bb = b.bytes();
        for (int64_t r = 0; r < rest; ++r)
        {
            int64_t code = first + r * A * A;
            for (int i = 0; i < n * n; ++i) { img[i] = (mode == 0 ? AL0 : AL1)[code % A]; code /= A; d.set(i, img[i]); }
            cm.fill(7); rs.fill(8); sk.fill(9);
            std::string db = d.bytes();
            sdp_Error st = SDP_SUCCESS;
            mc::calls();
            sdp_hogbom_clean(d.mem, p.mem, b.mem, gain, thr, cycles, cm.mem, rs.mem, sk.mem, &st);
            MC_CHECK(!st, "status", "status %d", (int) st);
            MC_CHECK(db == d.bytes() && pb == p.bytes() && bb == b.bytes(), "inputs", "an input was modified");
            // all outcomes the algorithm allows (ties between equal maxima may be broken either way)
            std::set<State> cur, done; cur.insert({img, V(n * n, 0.0)});
            bool exact = true;
            for (int c = 0; c < cycles && exact && cur.size() < 400; ++c)
            {
                std::set<State> next;
                for (auto& s : cur)
                {
                    const double mx = *std::max_element(s.res.begin(), s.res.end());
                    if (mx < thr) { done.insert(s); continue; }
                    for (int k = 0; k < n * n; ++k) if (s.res[k] == mx)
                    {
                        State q = s; q.comp[k] += gain * mx;
                        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
                        {
                            double& v = q.res[i * n + j]; v -= gain * mx * psf[(n - k / n + i) * m + n - k % n + j];
                            if (!dbl && (double) (float) v != v) exact = false;
                        }
                        if (!dbl && (double) (float) q.comp[k] != q.comp[k]) exact = false;
                        next.insert(q);
                    }
                }
                cur.swap(next);
            }
            done.insert(cur.begin(), cur.end());
            State got = {vals(rs), vals(cm)};
            const bool complete = exact && cur.size() < 400;
            if (complete)
            {
                std::string im; for (double x : img) im += mc::strf("%g ", x);
                MC_CHECK(done.count(got), "outcome", "image [%s]: components and residual are not an outcome of the algorithm (%zu outcomes)", im.c_str(), done.size());
            }
            mc::state(hash_vals(cm.all()) * 31 + (uint64_t) hash_vals(rs.all()));
            V lin = img;
            for (int k = 0; k < n * n; ++k) for (int i = 0; i < n * n; ++i) lin[i] -= got.comp[k] * psf[(n - k / n + i / n) * m + n - k % n + i % n];
            MC_CHECK(dist(lin, got.res) <= (dbl ? 1e-12 : 1e-5) * (1 + maxabs(img)) * 16, "residual", "residual is not the image minus the components' point spread functions (%g)", dist(lin, got.res));
            check_sky(vals(sk), got.res, got.comp, n, det, bs, dbl ? 1e-12 : 1e-5, "small");
        }
        return;
    }
    // hashed images, many cycles: decided wherever no near tie makes the outcome ambiguous
    // mode 3: more than 2^15 and 2^16 pixels, with the brightest ones in their far parts
    const bool large = mode == 3;
    n = large ? mc::pick({185, 260}, "size") : mc::pick({1, 4, 5, 8, 13}, "size");
    gain = large ? 0.9 : mc::pick({0.1, 0.3, 0.9}, "gain");
    cycles = large ? 6 : mc::pick({1, 7, 40}, "cycles");
    thr = large ? 0.4 : mc::pick({-1e9, 0.05, 0.4}, "threshold");
    const int bs = large ? mc::choose(2, "beam size") : mc::choose(6, "beam size");
    const int sizes[] = {large ? 21 : 1, 2, 5, n, 2 * n, 2 * n + 1};
    const int size = large && bs ? 2 * n + 1 : sizes[bs], m = 2 * n, salt = mc::choose(mc::quick() ? 2 : 6, "data");
    static const double D[][3] = {{1, 1, 0}, {2.5, 0.6, 35}, {0.4, 3, -70}, {1.5, 1, 90}};
    const double* dd = D[large ? 1 : mc::choose(4, "beam")];
    const V det = {dd[0], dd[1], dd[2], (double) size};
    Arr d(dbl ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT, {n, n}), p(d.type, {m, m}), b(d.type, {4}), cm(d.type, {n, n}), rs(d.type, {n, n}), sk(d.type, {n, n});
    fill_hash(d, 11 + salt); fill_hash(p, 31 + salt, 0.3); p.set(n * m + n, 1.0);
    if (large)
    {
        const int far[] = {n * n - 1, n * n - n, n - 1, (n - 3) * n + 17, 33000, 0};
        for (int i = 0; i < 6; ++i) d.set(salt & 1 ? far[i] : far[5 - i], 9.0 - i);
    }
    for (int i = 0; i < 4; ++i) b.set(i, det[i]);
    cm.fill(7); rs.fill(8); sk.fill(9);
    std::string db = d.bytes(), pb = p.bytes(), bb = b.bytes();
    sdp_Error st = SDP_SUCCESS;
    mc::calls();
    sdp_hogbom_clean(d.mem, p.mem, b.mem, gain, thr, cycles, cm.mem, rs.mem, sk.mem, &st);
    MC_CHECK(!st, "status", "status %d", (int) st);
    MC_CHECK(db == d.bytes() && pb == p.bytes() && bb == b.bytes(), "inputs", "an input was modified");
    V res = vals(d), comp(n * n, 0.0); psf = vals(p);
    const double eps = dbl ? 1e-11 : 1e-4, g = dbl ? gain : (float) gain;
    bool clear = true; double big = 1;
    for (int c = 0; c < cycles && clear; ++c)
    {
        int k = 0; for (int i = 0; i < n * n; ++i) if (res[i] > res[k]) k = i;
        const double mx = res[k];
        for (int i = 0; i < n * n; ++i) if (i != k && mx - res[i] < 10 * eps * big) clear = false;
        if (fabs(mx - thr) < 10 * eps * big) clear = false;
        if (mx < thr) break;
        comp[k] += g * mx;
        for (int i = 0; i < n * n; ++i) res[i] -= g * mx * psf[(n - k / n + i / n) * m + n - k % n + i % n];
        big = std::max(big, maxabs(res));
    }
    V gr = vals(rs), gc = vals(cm);
    mc::state(hash_vals(cm.all()));
    if (clear)
    {
        MC_CHECK(dist(gc, comp) <= eps * big * 4, "components", "n %d: components differ by %g", n, dist(gc, comp));
        MC_CHECK(dist(gr, res) <= eps * big * 4, "residual", "n %d: residual differs by %g", n, dist(gr, res));
    }
    check_sky(vals(sk), gr, gc, n, det, size, dbl ? 1e-12 : 2e-5, "hashed");
}

// ---------------------------------------------------------------- C02 -----
// in (n x n) convolved with a kernel of m x m pixels whose centre is at pixel 'centre'; result same size as in
static V conv(const V& in, int n, const V& k, int m, int centre)
{
    V out(n * n, 0.0);
    if (n > 16)
    {
        // the kernels of C02 are products of a function of the row and the same function of the column, up to a factor
        const int mid = m / 2;
        const double peak = k[mid * m + mid];
        V f(m), t(n * n, 0.0);
        for (int i = 0; i < m; ++i) f[i] = k[i * m + mid] / peak;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
            for (int b = std::max(0, j + centre - m + 1); b <= std::min(n - 1, j + centre); ++b) t[i * n + j] += in[i * n + b] * f[j + centre - b];
        for (int i = 0; i < n; ++i) for (int a = std::max(0, i + centre - m + 1); a <= std::min(n - 1, i + centre); ++a)
        {
            const double w = f[i + centre - a] * peak;
            if (w != 0) for (int j = 0; j < n; ++j) out[i * n + j] += t[a * n + j] * w;
        }
        return out;
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    {
        double s = 0;
        const int a0 = std::max(0, i + centre - m + 1), a1 = std::min(n - 1, i + centre);
        const int b0 = std::max(0, j + centre - m + 1), b1 = std::min(n - 1, j + centre);
        for (int a = a0; a <= a1; ++a) for (int b = b0; b <= b1; ++b)
            s += in[a * n + b] * k[(i + centre - a) * m + (j + centre - b)];
        out[i * n + j] = s;
    }
    return out;
}

struct Ms { bool clear; V comp, res; double big; };

// centre = n: kernels centred; centre = n - 1: the library's kernels, one pixel off in each convolution
static Ms ms(const V& img, const V& psf, int n, const std::vector<int>& scales, double gain, double thr, int cycles, int centre, double eps)
{
    const int m = 2 * n, S = (int) scales.size();
    std::vector<V> k(S), res(S); std::vector<std::vector<V>> sp(S, std::vector<V>(S));
    for (int s = 0; s < S; ++s)
    {
        k[s].assign(m * m, 0.0);
        for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j)
        {
            if (scales[s] == 0) { k[s][i * m + j] = i == n && j == n; continue; }
            const double sg = 3.0 / 16.0 * scales[s], t = 2 * sg * sg;
            k[s][i * m + j] = exp(-((i - n) * (i - n) + (j - n) * (j - n)) / t) / (M_PI * t);
        }
        res[s] = conv(img, n, k[s], m, centre);
    }
    V diag(S);
    Ms r; r.clear = true; r.big = 1; r.comp.assign(n * n, 0.0);
    for (int s = 0; s < S; ++s)
    {
        const V one = conv(psf, m, k[s], m, centre);
        for (int p = 0; p < S; ++p) sp[s][p] = conv(one, m, k[p], m, centre);
        diag[s] = std::max(0.0, *std::max_element(sp[s][s].begin(), sp[s][s].end()));
        if (diag[s] < (n > 16 ? 1e-6 : 1e-3)) r.clear = false;
        r.big = std::max(r.big, maxabs(res[s]) / std::max(diag[s], 1e-6));
    }
    for (int c = 0; c < cycles && r.clear; ++c)
    {
        int bs = -1, bp = 0; double best = 0;
        for (int s = 0; s < S; ++s)
        {
            int k0 = 0; for (int i = 0; i < n * n; ++i) if (res[s][i] > res[s][k0]) k0 = i;
            const double v = res[s][k0] / diag[s];
            if (v > 0 && (bs < 0 || v > best)) { best = v; bs = s; bp = k0; }
        }
        const double tol = 10 * eps * r.big;
        // ambiguous when another pixel or scale is (nearly) as high
        for (int s = 0; s < S; ++s) for (int i = 0; i < n * n; ++i)
            if (!(s == bs && i == bp) && bs >= 0 && fabs(res[s][i] / diag[s] - best) < tol) r.clear = false;
        if (bs < 0 || best < tol) { if (best > 0 || thr <= 0) { r.clear = r.clear && best <= 0; } break; }
        const double peak = res[bs][bp];
        // "intensity of the peak": judged only where it does not matter whether it is biased
        if (fabs(peak - thr) < tol || fabs(best - thr) < tol || (peak < thr) != (best < thr)) r.clear = false;
        if (peak < thr) break;
        const int px = bp / n, py = bp % n;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
        {
            const int q = (n - px + i) * m + n - py + j;
            r.comp[i * n + j] += gain * best * k[bs][q];
            for (int s = 0; s < S; ++s) res[s][i * n + j] -= gain * best * sp[s][bs][q];
        }
        for (int s = 0; s < S; ++s) r.big = std::max(r.big, maxabs(res[s]) / diag[s]);
        if (r.big > 1e6) r.clear = false;
    }
    r.res = res[0];
    return r;
}

static void c02()
{
    const int dbl = mc::flip("double");
    // 1: many scales; 2: large images and scales
    const int kind = mc::choose(3, "kind");
    static const std::vector<int> SC[] = {{0}, {2}, {0, 2}, {0, 4, 8}, {3, 0}, {1, 0, 6}, {0, 1, 2, 3, 5}, {8, 5, 3, 2, 1, 0}, {0, 150}, {7, 0}};
    const int n = kind == 0 ? mc::pick({3, 4, 6}, "size") : kind == 1 ? mc::pick({4, 6}, "size") : mc::pick({33, 100}, "size");
    const std::vector<int>& scales = SC[kind == 0 ? mc::choose(6, "scales") : kind == 1 ? 6 + mc::choose(2, "scales") : 8 + mc::choose(2, "scales")];
    const int pv = kind ? 2 : mc::choose(3, "psf"), iv = mc::choose(kind ? 3 : mc::quick() ? 6 : 24, "image");
    const double gain = kind ? 0.5 : mc::pick({0.1, 0.5, 1.0}, "gain"), thr = kind == 2 ? -1e6 : kind ? 0.03 : mc::pick({-1e6, 0.03, 0.6}, "threshold");
    const int cycles = kind ? mc::pick({0, 3}, "cycles") : mc::pick({0, 1, 2, 9}, "cycles"), m = 2 * n;
    static const double D[][3] = {{1, 1, 0}, {2.5, 0.6, 35}};
    const double* dd = D[kind ? 1 : mc::choose(2, "beam")];
    const V det = {dd[0], dd[1], dd[2], (double) m};
    Arr d(dbl ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT, {n, n}), p(d.type, {m, m}), b(d.type, {4}), cm(d.type, {n, n}), rs(d.type, {n, n}), sk(d.type, {n, n});
    Arr sc(SDP_MEM_INT, {(int64_t) scales.size()});
    for (size_t i = 0; i < scales.size(); ++i) sc.set(i, scales[i]);
    for (int i = 0; i < 4; ++i) b.set(i, det[i]);
    fill_hash(d, 11 + iv);
    if (iv % 3 == 1) for (int i = 0; i < n * n; ++i) d.set(i, i == (iv * 5) % (n * n) ? 1.0 : 0.0); // point source
    if (iv % 3 == 2) for (int i = 0; i < n * n; ++i) d.set(i, fabs(d.get(i).real()) + (i % n == n - 1 ? 0.5 : 0)); // structure at the edge
    fill_hash(p, 31 + iv, pv == 0 ? 0.0 : 0.2);
    if (pv == 2) for (int i = 0; i < m * m; ++i) p.set(i, p.get(i).real() + exp(-0.7 * (pow(i / m - n, 2) + pow(i % m - n, 2))));
    p.set(n * m + n, 1.0);
    cm.fill(7); rs.fill(8); sk.fill(9);
    std::string i0 = d.bytes(), i1 = p.bytes(), i2 = b.bytes(), i3 = sc.bytes();
    sdp_Error st = SDP_SUCCESS;
    mc::calls();
    sdp_ms_clean_cornwell(d.mem, p.mem, b.mem, sc.mem, gain, thr, cycles, cm.mem, rs.mem, sk.mem, &st);
    MC_CHECK(!st, "status", "status %d", (int) st);
    MC_CHECK(i0 == d.bytes() && i1 == p.bytes() && i2 == b.bytes() && i3 == sc.bytes(), "inputs", "an input was modified");
    const V gc = vals(cm), gr = vals(rs), gs = vals(sk);
    mc::state(hash_vals(cm.all()) * 31 + (uint64_t) hash_vals(rs.all()));
    const double eps = dbl ? 1e-11 : 1e-4;
    const double g = dbl ? gain : (float) gain;
    const Ms good = ms(vals(d), vals(p), n, scales, g, thr, cycles, n, eps), off = ms(vals(d), vals(p), n, scales, g, thr, cycles, n - 1, eps);
    auto same = [&](const Ms& o) { return o.clear && dist(gc, o.comp) <= 20 * eps * o.big && dist(gr, o.res) <= 20 * eps * o.big; };
    if (!same(good))
    {
        if (same(off)) mc::note("psf-displaced", mc::strf("n %d: the scale kernels displace the image by one pixel and the point spread function by two", n));
        else if (off.clear && good.clear) mc::fail("outcome", "n %d: components differ by %g, residual by %g (displaced: %g, %g)", n,
            dist(gc, good.comp), dist(gr, good.res), dist(gc, off.comp), dist(gr, off.res));
        else if (off.clear || good.clear) { /* the other reading is ambiguous here */ }
    }
    check_sky(gs, gr, gc, n, det, m, dbl ? 1e-11 : 2e-5, "multi-scale");
}

static void body()
{
    if (mc::prop("C01")) c01();
    if (mc::prop("C02")) c02();
}

MC_MAIN(body)
