// Arrays of more than 2^31 elements.
// Sparse (W01, U02, G01, G02, G05): the memory is reserved, not used; only the pages which are addressed exist.
// M02 on arrays of more than 2^31 elements or 2^32 bytes, processed in full. The array's pages are many mappings of the same
// small file, so that only address space is large; its last part has memory of its own, which shows whether the end was reached.
#include <sys/mman.h>
#include <unistd.h>
#include <omp.h>
#include "mc/arr.hpp"
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"
#include "ska-sdp-func/visibility/sdp_weighting.h"
#include "ska-sdp-func/visibility/sdp_dft.h"
#include "ska-sdp-func/visibility/sdp_flagger.h"
#include "ska-sdp-func/visibility/sdp_phase_rotate.h"
#include "ska-sdp-func/grid_data/sdp_degrid_uvw_custom.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"

struct Big
{
    static constexpr size_t FILE_SIZE = (size_t) 2 << 20, TAIL = (size_t) 64 << 10;
    char* base = nullptr;
    size_t bytes = 0, mapped = 0;
    int fd = -1;
    explicit Big(size_t want) : bytes(want)
    {
        fd = memfd_create("big", 0);
        if (fd < 0 || ftruncate(fd, FILE_SIZE)) mc::infeasible();
        mapped = (want / FILE_SIZE + 2) * FILE_SIZE;
        void* p = mmap(nullptr, mapped, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { close(fd); mc::infeasible(); }
        base = (char*) p;
        // everything before the page of (end - TAIL) is the file, the rest is memory of its own
        const size_t cut = (want - TAIL) & ~(size_t) 4095;
        for (size_t o = 0; o < cut; o += FILE_SIZE)
        {
            const size_t len = std::min(FILE_SIZE, cut - o);
            if (mmap(base + o, len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { drop(); mc::infeasible(); }
        }
        if (mmap(base + cut, mapped - cut, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) { drop(); mc::infeasible(); }
    }
    void drop() { munmap(base, mapped); close(fd); }
};

static void m02_huge()
{
    static const char* names[] = {"set_value", "scale_real", "clear_contents", "clear_portion", "copy_contents", "copy_contents_async"};
    const int op = mc::choose(6, "op");
    mc::context("%s of a large array", names[op]);
    const int64_t extra = 1000;
    sdp_Error st = SDP_SUCCESS;
    mc::calls();
    uint64_t seen = 0;
    if (op == 0 || op == 1)
    {
        const int nd = op == 0 ? 1 + mc::choose(3, "dimensions") : 1, dim = nd > 1 ? mc::choose(nd, "long dimension") : 0;
        const int64_t n = ((int64_t) 1 << 31) + extra;
        Shape shp(nd, 1);
        shp[dim] = n;
        const sdp_MemType type = op == 0 ? SDP_MEM_INT : SDP_MEM_FLOAT;
        Big b((size_t) n * 4);
        sdp_Mem* m = sdp_mem_create_wrapper(b.base, type, SDP_MEM_CPU, nd, shp.data(), nullptr, &st);
        if (op == 0)
        {
            ((int*) b.base)[n] = 99; // just beyond the end
            sdp_mem_set_value(m, 7, &st);
            int64_t bad = -1;
            const int* p = (const int*) b.base;
            for (int64_t i = 0; i < (int64_t) (Big::FILE_SIZE / 4) && bad < 0; ++i) if (p[i] != 7) bad = i;
            for (int64_t i = n - (int64_t) (Big::TAIL / 4); i < n && bad < 0; ++i) if (p[i] != 7) bad = i;
            const int beyond = p[n];
            sdp_mem_free(m); b.drop();
            MC_CHECK(!st, "huge-set_value", "refused");
            MC_CHECK(bad < 0, "huge-set_value", "element %lld of %lld (%dD) is not set", (long long) bad, (long long) n, nd);
            MC_CHECK(beyond == 99, "huge-set_value", "the element beyond the end is changed");
        }
        else
        {
            float* p = (float*) b.base;
            for (int64_t i = n - (int64_t) (Big::TAIL / 4); i <= n; ++i) p[i] = (float) (i & 63);
            sdp_mem_scale_real(m, -2.0, &st);
            int64_t bad = -1;
            for (int64_t i = n - (int64_t) (Big::TAIL / 4); i < n && bad < 0; ++i) if (p[i] != -2.0f * (float) (i & 63)) bad = i;
            const float beyond = p[n];
            sdp_mem_free(m); b.drop();
            MC_CHECK(!st, "huge-scale_real", "refused");
            MC_CHECK(bad < 0, "huge-scale_real", "element %lld of %lld is not scaled", (long long) bad, (long long) n);
            MC_CHECK(beyond == (float) (n & 63), "huge-scale_real", "the element beyond the end is changed");
        }
        seen = (uint64_t) nd * 16 + dim;
    }
    else
    {
        const int wide = mc::choose(2, "type");
        const sdp_MemType type = wide ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_CHAR;
        const int64_t es = tsize(type);
        const int64_t n = ((int64_t) 1 << 32) / es + extra;
        Shape shp{n};
        Big b((size_t) (n * es));
        sdp_Mem* m = sdp_mem_create_wrapper(b.base, type, SDP_MEM_CPU, 1, shp.data(), nullptr, &st);
        char* p = b.base;
        const int64_t end = n * es, t0 = end - (int64_t) Big::TAIL;
        auto val = [](int64_t i) { return (char) (i * 31 + (i >> 8)); };
        for (int64_t i = t0; i < end + 16; ++i) p[i] = val(i);
        const int64_t first = op == 3 ? 3 : 0; // elements left out at the start and the end
        int64_t bad = -1;
        if (op < 4)
        {
            memset(p, 5, 64);
            if (op == 2) sdp_mem_clear_contents(m, &st); else sdp_mem_clear_portion(m, first, n - 2 * first, &st);
            // (the start of the array shares its memory with later parts, which are cleared in either case)
            for (int64_t i = t0; i < end + 16 && bad < 0; ++i) if (p[i] != (i < end - first * es ? 0 : val(i))) bad = i;
            sdp_mem_free(m); b.drop();
            MC_CHECK(!st, "huge-clear", "refused");
            MC_CHECK(bad < 0, "huge-clear", "byte %lld of %lld", (long long) bad, (long long) end);
        }
        else
        {
            Big c((size_t) (n * es));
            sdp_Mem* d = sdp_mem_create_wrapper(c.base, type, SDP_MEM_CPU, 1, shp.data(), nullptr, &st);
            for (int64_t i = t0; i < end + 16; ++i) c.base[i] = 9;
            if (op == 4) sdp_mem_copy_contents(d, m, 0, 1, n - 1, &st);
            else sdp_mem_copy_contents_async(d, m, 0, 1, n - 1, nullptr, &st);
            for (int64_t i = t0; i < end + 16 && bad < 0; ++i) if (c.base[i] != (i < end - es ? val(i + es) : 9)) bad = i;
            sdp_mem_free(m); sdp_mem_free(d); b.drop(); c.drop();
            MC_CHECK(!st, "huge-copy", "refused");
            MC_CHECK(bad < 0, "huge-copy", "byte %lld of %lld", (long long) bad, (long long) end);
        }
        seen = (uint64_t) wide;
    }
    mc::state(seen * 8 + (uint64_t) op);
}

static const double C0 = 299792458.0;
struct Sparse   // zeroed address space
{
    char* base; size_t bytes; sdp_Mem* mem = nullptr;
    Sparse(sdp_MemType type, const Shape& shp, sdp_Error* st)
    {
        bytes = tsize(type);
        for (auto d : shp) bytes *= (size_t) d;
        void* p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) mc::infeasible();
        base = (char*) p;
        mem = sdp_mem_create_wrapper(base, type, SDP_MEM_CPU, (int) shp.size(), shp.data(), nullptr, st);
    }
    ~Sparse() { sdp_mem_free(mem); munmap(base, bytes); }
};
static void w01_huge()
{
    sdp_Error st = SDP_SUCCESS;
    const int64_t n = 40001, npol = mc::pick({1, 2}, "pols");
    const bool briggs = mc::flip("briggs");
    static const int64_t cells[][2] = {{40000, 40000}, {40000, 0}, {0, 40000}, {39999, 39998}, {20000, 20000}, {26844, 5}, {27000, 30000}, {40000, 40000}, {13422, 39990}, {0, 0}};
    const int nv = 10;
    mc::context("%s weighting on a grid of %lld x %lld", briggs ? "briggs" : "uniform", (long long) n, (long long) n);
    mc::calls();
    Sparse g(SDP_MEM_DOUBLE, {n, n, npol}, &st);
    Arr uvw(SDP_MEM_DOUBLE, {1, nv, 3}), f(SDP_MEM_DOUBLE, {1}), in(SDP_MEM_DOUBLE, {1, nv, 1, npol}), out(SDP_MEM_DOUBLE, {1, nv, 1, npol});
    const double mx = 1000.0;
    f.set(0, C0);
    const int64_t half = n / 2;
    for (int i = 0; i < nv; ++i)
    {
        for (int d = 0; d < 2; ++d) uvw.set(i * 3 + d, ((double) (cells[i][d] - half) + 0.5) / (double) half * mx);
        uvw.set(i * 3 + 2, 0.0);
        for (int p = 0; p < npol; ++p) in.set(i * npol + p, 1.0 + i + 0.25 * p);
    }
    for (int64_t i = 0; i < out.size(); ++i) out.set(i, -5.0);
    if (briggs) sdp_weighting_briggs(uvw.mem, f.mem, mx, 0.5, g.mem, in.mem, out.mem, &st);
    else sdp_weighting_uniform(uvw.mem, f.mem, mx, g.mem, in.mem, out.mem, &st);
    MC_CHECK(!st, "huge", "refused (%d)", st);
    std::map<std::pair<int64_t, int64_t>, std::vector<double>> sum;
    for (int i = 0; i < nv; ++i) { auto& v = sum[{cells[i][0], cells[i][1]}]; v.resize(npol); for (int p = 0; p < npol; ++p) v[p] += 1.0 + i + 0.25 * p; }
    const double* gd = (const double*) g.base;
    double sw = 0, sw2 = 0;
    for (auto& c : sum) for (int p = 0; p < npol; ++p)
        MC_CHECK(gd[(c.first.first * n + c.first.second) * npol + p] == c.second[p], "huge", "cell (%lld, %lld) holds %g, not %g", (long long) c.first.first,
            (long long) c.first.second, gd[(c.first.first * n + c.first.second) * npol + p], c.second[p]);
    for (int i = 0; i < nv; ++i) for (int p = 0; p < npol; ++p) { double s = sum[{cells[i][0], cells[i][1]}][p]; sw += s; sw2 += s * s; }
    const double k = std::pow(5.0 * std::pow(10.0, -0.5), 2) / (sw2 / sw);
    for (int i = 0; i < nv; ++i) for (int p = 0; p < npol; ++p)
    {
        const double s = sum[{cells[i][0], cells[i][1]}][p], w = 1.0 + i + 0.25 * p;
        const double want = briggs ? w / (1 + k * s) : 1 / s;
        MC_CHECK(std::fabs(out.get(i * npol + p).real() - want) <= 1e-9 * want, "huge", "weight of visibility %d is %g, not %g", i, out.get(i * npol + p).real(), want);
    }
    mc::state(hash_vals(out.all()));
}
static void u02_huge()
{
    sdp_Error st = SDP_SUCCESS;
    const int which = mc::choose(3, "shape");
    static const int64_t sz[3][3] = {{3, 30000, 26000}, {3, 7, 100000001}, {3, 100000001, 7}}; // w, v, u
    const int64_t nz = sz[which][0], ny = sz[which][1], nx = sz[which][2];
    const int64_t nch = 2, npol = 1;
    mc::context("custom degridding from a grid of %lld x %lld x %lld", (long long) nz, (long long) ny, (long long) nx);
    mc::calls();
    Sparse g(SDP_MEM_COMPLEX_DOUBLE, {nch, nz, ny, nx, npol}, &st);
    const int ks = 3, os = 4, ws = 3, wos = 2;
    Arr uvk(SDP_MEM_DOUBLE, {os, ks}), wk(SDP_MEM_DOUBLE, {wos, ws}), uvw(SDP_MEM_DOUBLE, {1, 4, 3}), vis(SDP_MEM_COMPLEX_DOUBLE, {1, 4, nch, npol});
    for (int i = 0; i < os * ks; ++i) uvk.set(i, 1.0 + i % 3);
    for (int i = 0; i < wos * ws; ++i) wk.set(i, 1.0 + 2 * (i % 3));
    const double theta = 0.5;
    // positions on grid points near the far edges
    const int64_t px[4] = {nx - 3, 2, nx / 2, nx - 3}, py[4] = {ny - 3, ny - 3, ny / 2, 2};
    auto val = [](int64_t c, int64_t z, int64_t y, int64_t x) { return (float) ((c * 7 + z * 5 + y * 3 + x) % 101); };
    for (int i = 0; i < 4; ++i)
    {
        uvw.set(i * 3, (double) (px[i] - nx / 2) / theta); uvw.set(i * 3 + 1, (double) (py[i] - ny / 2) / theta); uvw.set(i * 3 + 2, 0.0);
        for (int64_t c = 0; c < nch; ++c) for (int64_t z = 0; z < nz; ++z) for (int64_t y = py[i] - 1; y <= py[i] + 1; ++y) for (int64_t x = px[i] - 1; x <= px[i] + 1; ++x)
            ((std::complex<double>*) g.base)[((c * nz + z) * ny + y) * nx + x] = val(c, z, y, x);
    }
    for (int64_t i = 0; i < vis.size(); ++i) vis.set(i, -5.0);
    sdp_degrid_uvw_custom(g.mem, uvw.mem, uvk.mem, wk.mem, theta, 100.0, C0, 0.0, 0, vis.mem, &st);
    MC_CHECK(!st, "huge", "refused (%d)", st);
    for (int i = 0; i < 4; ++i) for (int64_t c = 0; c < nch; ++c)
    {
        const bool in = px[i] > ks / 2 && px[i] < nx - ks / 2 && py[i] > ks / 2 && py[i] < ny - ks / 2;
        double want = in ? 0 : -5;
        for (int64_t z = 0; in && z < ws; ++z) for (int64_t y = 0; y < ks; ++y) for (int64_t x = 0; x < ks; ++x)
            want += (1.0 + 2 * (double) z) * (1.0 + (double) y) * (1.0 + (double) x) * val(c, z, py[i] + y - 1, px[i] + x - 1);
        MC_CHECK(std::abs(vis.get(i * nch + c) - cd(want)) <= 1e-9 * std::fabs(want), "huge", "visibility %d, channel %lld is %g, not %g", i, (long long) c, vis.get(i * nch + c).real(), want);
    }
    mc::state(hash_vals(vis.all()));
}
// One row in many, one channel in many: the same as that row and channel alone.
static void rows_huge(bool tower)
{
    sdp_Error st = SDP_SUCCESS;
    const int64_t rows = 70001, chans = 40003, n_ch = 3;
    const bool degrid = mc::flip("degrid"), late = mc::flip("row");
    const int64_t row = late ? rows - 1 : 53700, c0 = late ? chans - n_ch : 39000;
    mc::context("%s %s: row %lld of %lld, channel %lld of %lld", tower ? "w-towers" : "direct", degrid ? "degrid" : "grid", (long long) row, (long long) rows, (long long) c0, (long long) chans);
    mc::calls(2);
    const int isz = 32, ssz = 16;
    const double theta = 0.01, wstep = 50.0, f0 = C0, df = 100.0;
    Arr img(SDP_MEM_COMPLEX_DOUBLE, {ssz, ssz}), img2(SDP_MEM_COMPLEX_DOUBLE, {ssz, ssz});
    fill_hash(img, 3, 1.0);
    if (!degrid) { for (int64_t i = 0; i < img.size(); ++i) { img.set(i, 0); img2.set(i, 0); } }
    else for (int64_t i = 0; i < img.size(); ++i) img2.set(i, img.get(i));
    Sparse vis(SDP_MEM_COMPLEX_DOUBLE, {rows, chans}, &st);
    std::complex<double>* v = (std::complex<double>*) vis.base + row * chans + c0;
    Sparse uvw(SDP_MEM_DOUBLE, {rows, 3}, &st), s(SDP_MEM_INT, {rows}, &st), e(SDP_MEM_INT, {rows}, &st);
    Arr vis1(SDP_MEM_COMPLEX_DOUBLE, {1, n_ch}), uvw1(SDP_MEM_DOUBLE, {1, 3}), s1(SDP_MEM_INT, {1}), e1(SDP_MEM_INT, {1});
    const double q[3] = {110.3, -91.7, 20.1};
    for (int d = 0; d < 3; ++d) { ((double*) uvw.base)[row * 3 + d] = q[d]; uvw1.set(d, q[d]); }
    ((int*) s.base)[row] = (int) c0; ((int*) e.base)[row] = (int) (c0 + n_ch);
    s1.set(0, 0); e1.set(0, (double) n_ch);
    for (int64_t c = 0; c < n_ch; ++c) { cd x(1.0 + (double) c, 2.0 - (double) c); if (!degrid) v[c] = x; vis1.set(c, degrid ? cd(0) : x); }
    for (int k = 0; k < 2; ++k)
    {
        sdp_Mem *V = k ? vis1.mem : vis.mem, *U = k ? uvw1.mem : uvw.mem, *S = k ? s1.mem : s.mem, *E = k ? e1.mem : e.mem, *I = k ? img2.mem : img.mem;
        const double f = k ? f0 + (double) c0 * df : f0;
        if (tower)
        {
            auto* p = sdp_gridder_wtower_uvw_create(isz, ssz, theta, wstep, 0.1, 0.05, 6, 256, 6, 256, &st);
            if (degrid) sdp_gridder_wtower_uvw_degrid(p, I, 1, -1, 0, f, df, U, S, E, V, 0, k ? 1 : rows, &st);
            else sdp_gridder_wtower_uvw_grid(p, V, U, S, E, f, df, I, 1, -1, 0, 0, k ? 1 : rows, &st);
            sdp_gridder_wtower_uvw_free(p);
        }
        else
        {
            auto* p = sdp_gridder_direct_create(isz, ssz, theta, wstep, 0.1, 0.05, 6, &st);
            if (degrid) sdp_gridder_direct_degrid(p, I, 1, -1, 0, f, df, U, S, E, V, &st);
            else sdp_gridder_direct_grid(p, V, U, S, E, f, df, I, 1, -1, 0, &st);
            sdp_gridder_direct_free(p);
        }
        MC_CHECK(!st, "huge", "refused (%d)", st);
    }
    double scale = 0, worst = 0;
    if (degrid) for (int64_t c = 0; c < n_ch; ++c) { scale = std::max(scale, std::abs(vis1.get(c))); worst = std::max(worst, std::abs(vis1.get(c) - v[c])); }
    else for (int64_t i = 0; i < img.size(); ++i) { scale = std::max(scale, std::abs(img2.get(i))); worst = std::max(worst, std::abs(img.get(i) - img2.get(i))); }
    MC_CHECK(scale > 1e-9, "huge", "nothing was computed");
    MC_CHECK(worst <= 1e-8 * scale, "huge", "differs from the row alone by %g (largest value %g)", worst, scale);
    mc::state(degrid ? hash_vals(vis1.all()) : hash_vals(img.all()));
}
static void g05_huge()
{
    sdp_Error st = SDP_SUCCESS;
    const int64_t n0 = mc::pick({50001, 3, 1400000001}, "size"), n1 = n0 == 50001 ? 50001 : (n0 == 3 ? 1400000001 : 3);
    const bool add = mc::flip("add"), dbl = mc::flip("double");
    const sdp_MemType type = dbl ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
    mc::context("sub-grid %s a grid of %lld x %lld", add ? "added to" : "cut out of", (long long) n0, (long long) n1);
    mc::calls();
    const int s = 3;
    const int64_t off0 = mc::pick({-1, 0, 1}, "offset 0"), off1 = mc::pick({-1, 0, 1}, "offset 1");
    // offsets: at the edges, in the middle, wrapping around
    const int ou = (int) (off0 * (n0 / 2 - (off0 > 0 ? 1 : 0))), ov = (int) (off1 * (n1 / 2 - (off1 > 0 ? 1 : 0)));
    Sparse g(type, {n0, n1}, &st);
    Arr sub(type, {s, s});
    auto pos = [&](int64_t i, int64_t o, int64_t n) { int64_t k = (i + n / 2 - s / 2 + o) % n; return k < 0 ? k + n : k; };
    auto at = [&](int i, int j) { return pos(i, add ? -ou : ou, n0) * n1 + pos(j, add ? -ov : ov, n1); };
    auto get = [&](int64_t k) { return dbl ? ((std::complex<double>*) g.base)[k] : cd(((std::complex<float>*) g.base)[k]); };
    auto put = [&](int64_t k, cd v) { if (dbl) ((std::complex<double>*) g.base)[k] = v; else ((std::complex<float>*) g.base)[k] = std::complex<float>(v); };
    for (int i = 0; i < s; ++i) for (int j = 0; j < s; ++j) { put(at(i, j), cd(10 + i * 3 + j, i - j)); sub.set(i * s + j, add ? cd(i + 1, j + 2) : cd(0)); }
    if (add) sdp_gridder_subgrid_add(g.mem, ou, ov, sub.mem, 2.0, &st);
    else sdp_gridder_subgrid_cut_out(g.mem, ou, ov, sub.mem, &st);
    MC_CHECK(!st, "huge", "refused (%d)", st);
    for (int i = 0; i < s; ++i) for (int j = 0; j < s; ++j)
    {
        const cd was(10 + i * 3 + j, i - j);
        if (add) MC_CHECK(get(at(i, j)) == was + 2.0 * cd(i + 1, j + 2), "huge", "element (%d, %d) added at offset %d, %d", i, j, ou, ov);
        else MC_CHECK(sub.get(i * s + j) == was, "huge", "element (%d, %d) cut out at offset %d, %d", i, j, ou, ov);
    }
    mc::state(hash_vals(sub.all()) + (uint64_t) add);
}

// Whole images of more than 2^31 pixels.
static void image_huge()
{
    sdp_Error st = SDP_SUCCESS;
    const bool fft = mc::prop("F03");
    const int op = fft ? mc::choose(2, "op") : 2 + mc::choose(2, "op");
    static const char* names[] = {"fft_norm", "fft_phase", "rms_diff", "residual"};
    mc::context("%s of a large image", names[op]);
    mc::calls();
    const int64_t shape[] = {65536, 32769}, n = shape[0] * shape[1];
    uint64_t seen = 0;
    if (op < 2)
    {
        typedef std::complex<float> T;
        Big b((size_t) n * sizeof(T));
        T* p = (T*) b.base;
        const int64_t tail = (int64_t) (Big::TAIL / sizeof(T)) - 600;
        for (int64_t k = n - tail; k < n; ++k) p[k] = T(3 + k % 7, -1);
        sdp_Mem* m = sdp_mem_create_wrapper(p, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_CPU, 2, shape, nullptr, &st);
        if (op == 0) sdp_fft_norm(m, &st); else sdp_fft_phase(m, &st);
        int64_t bad = -1;
        for (int64_t k = n - tail; k < n && bad < 0; ++k)
        {
            const int64_t i = k / shape[1], j = k % shape[1];
            const cd want = cd(3 + k % 7, -1) * (op == 0 ? 1.0 / (double) n : (i + j) & 1 ? -1.0 : 1.0);
            if (!(std::abs(cd(p[k]) - want) <= 1e-6 * std::abs(want))) bad = k;
        }
        const cd got = bad < 0 ? cd(0) : cd(p[bad]) * (op ? 1.0 : (double) n);
        sdp_mem_free(m);
        b.drop();
        MC_CHECK(!st, "huge", "refused (%d)", st);
        MC_CHECK(bad < 0, "huge", "pixel %lld of %lld is (%g, %g)%s", (long long) bad, (long long) n, got.real(), got.imag(), op ? "" : " times the number of pixels");
    }
    else
    {
        Big a((size_t) n * 4), b((size_t) n * 4), o(op == 3 ? (size_t) n * 4 : Big::FILE_SIZE);
        float *pa = (float*) a.base, *pb = (float*) b.base, *po = (float*) o.base;
        const int64_t tail = 10000;
        for (int64_t k = n - tail; k < n; ++k) { pa[k] = 5; pb[k] = 2; if (op == 3) po[k] = 77; }
        sdp_Mem* ma = sdp_mem_create_wrapper(pa, SDP_MEM_FLOAT, SDP_MEM_CPU, 2, shape, nullptr, &st);
        sdp_Mem* mb = sdp_mem_create_wrapper(pb, SDP_MEM_FLOAT, SDP_MEM_CPU, 2, shape, nullptr, &st);
        int64_t bad = -1;
        double r = 0;
        const double want = 3 * sqrt((double) tail / (double) n);
        if (op == 2) r = sdp_gridder_rms_diff(ma, mb, &st);
        else
        {
            sdp_Mem* mo = sdp_mem_create_wrapper(po, SDP_MEM_FLOAT, SDP_MEM_CPU, 2, shape, nullptr, &st);
            sdp_gridder_residual(ma, mb, mo, &st);
            for (int64_t k = n - tail; k < n && bad < 0; ++k) if (po[k] != 3) bad = k;
            sdp_mem_free(mo);
        }
        sdp_mem_free(ma); sdp_mem_free(mb);
        a.drop(); b.drop(); o.drop();
        MC_CHECK(!st, "huge", "refused (%d)", st);
        MC_CHECK(bad < 0, "huge", "pixel %lld of %lld", (long long) bad, (long long) n);
        MC_CHECK(op == 3 || fabs(r - want) <= 1e-9 * want, "huge", "difference %g, expected %g", r, want);
    }
    mc::state(seen + (uint64_t) op);
}

// More than 2^32 visibilities.
static void d01_huge()
{
    sdp_Error st = SDP_SUCCESS;
    const int v01 = mc::choose(2, "function");
    // (bands are no multiple of the file long, so that threads do not write the same memory)
    const int64_t nt = 3, nb = v01 ? 8 : 45031424, nc = v01 ? 45031424 : 8, np = 4, n = nt * nb * nc * np;
    mc::context("prediction of %lld visibilities", (long long) n);
    mc::calls();
    omp_set_num_threads(8);
    Big vis((size_t) n * 8);
    Shape vs{nt, nb, nc, np};
    sdp_Mem* v = sdp_mem_create_wrapper(vis.base, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_CPU, 4, vs.data(), nullptr, &st);
    Arr dir(SDP_MEM_DOUBLE, {1, 3});
    for (int d = 0; d < 3; ++d) dir.set(d, d == 2 ? 0 : 0.25);
    Sparse flux(SDP_MEM_COMPLEX_DOUBLE, {1, nc, np}, &st);
    Sparse uvw(SDP_MEM_DOUBLE, v01 ? Shape{nt, nb, 3} : Shape{nt, nb, nc, 3}, &st);
    // the first baselines have no coordinates, the first channels no flux
    const int64_t k = 100;
    for (int64_t c = v01 ? nc - k : 0; c < nc; ++c) for (int64_t p = 0; p < np; ++p)
        ((std::complex<double>*) flux.base)[c * np + p] = std::complex<double>((double) (c & 15) + 1, (double) p);
    double* u = (double*) uvw.base;
    if (v01) u[((nt - 1) * nb + nb - 1) * 3] = 3.0; // the last time and baseline
    else for (int64_t c = -k * np; c < 0; ++c) u[(nt * nb * nc + c) * 3] = 3.0 + (double) (c & 1);
    if (v01) sdp_dft_point_v01(dir.mem, flux.mem, uvw.mem, C0, 0.0, v, &st);
    else sdp_dft_point_v00(dir.mem, flux.mem, uvw.mem, v, &st);
    int64_t bad = -1;
    const std::complex<float>* o = (const std::complex<float>*) vis.base;
    for (int64_t i = n - k * np; i < n && bad < 0; ++i)
    {
        const int64_t c = (i / np) % nc, p = i % np;
        const double ph = -2 * M_PI * 0.25 * (v01 ? 3.0 : 3.0 + (double) (c & 1));
        if (std::abs(cd(o[i]) - cd((double) (c & 15) + 1, (double) p) * cd(std::cos(ph), std::sin(ph))) > 1e-4) bad = i;
    }
    sdp_mem_free(v); vis.drop();
    MC_CHECK(!st, "huge", "refused (%d)", st);
    MC_CHECK(bad < 0, "huge", "visibility %lld of %lld", (long long) bad, (long long) n);
    mc::state((uint64_t) v01);
}
static void l01_huge()
{
    sdp_Error st = SDP_SUCCESS;
    const int which = mc::choose(3, "shape");
    const int64_t nt = which == 0 ? 2 : 1, nb = which == 0 ? 27001 : which == 1 ? 54001 : 13501, nc = 40009, np = which == 2 ? 4 : 1, n = nt * nb * nc * np;
    mc::context("flagging %lld visibilities", (long long) n);
    mc::calls();
    omp_set_num_threads(8);
    Sparse vis(SDP_MEM_COMPLEX_FLOAT, {nt, nb, nc, np}, &st), fl(SDP_MEM_INT, {nt, nb, nc, np}, &st);
    ((std::complex<float>*) vis.base)[n - 1] = 5.0f;                       // the last one
    ((std::complex<float>*) vis.base)[n - 1 - (nc / 2) * np] = 5.0f;       // and one half a band before it
    sdp_flagger_dynamic_threshold(vis.mem, fl.mem, 0.5, 3.0, 3.0, 10.0, 1001, 1, 2, &st);
    MC_CHECK(!st, "huge", "refused (%d)", st);
    const int* f = (const int*) fl.base;
    for (int64_t c : {nc / 2, (int64_t) 0}) for (int64_t w = -3; w <= 3; ++w)
    {
        if (c == 0 && w < 0) continue;
        const int64_t i = n - 1 - (c + w) * np;
        MC_CHECK(f[i] == (std::llabs(w) <= 1), "huge", "flag of visibility %lld of %lld is %d", (long long) i, (long long) n, f[i]);
        if (nt > 1) MC_CHECK(f[i - nb * nc * np] == (std::llabs(w) <= 1), "huge", "flag of visibility %lld of %lld, a time sample before, is %d", (long long) i, (long long) n, f[i - nb * nc * np]);
    }
    MC_CHECK(f[0] == 0 && f[nc] == 0, "huge", "flags elsewhere");
    mc::state((uint64_t) which);
}
static void r01_huge()
{
    sdp_Error st = SDP_SUCCESS;
    const int64_t nt = 2, nb = 3, nc = 90000001, np = 4, n = nt * nb * nc * np;
    mc::context("phase rotation of %lld visibilities", (long long) n);
    mc::calls();
    Shape s{nt, nb, nc, np};
    Big out((size_t) n * 8);
    Sparse in(SDP_MEM_COMPLEX_FLOAT, s, &st), uvw(SDP_MEM_FLOAT, {nt, nb, 3}, &st);
    sdp_Mem* o = sdp_mem_create_wrapper(out.base, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_CPU, 4, s.data(), nullptr, &st);
    const int64_t k = 400;
    for (int64_t i = n - k; i < n; ++i) ((std::complex<float>*) in.base)[i] = std::complex<float>((float) (i & 31) + 1, (float) (i & 7));
    // the last baseline has coordinates, the phase centre moves: compared with the last channels alone
    ((float*) uvw.base)[((nt - 1) * nb + nb - 1) * 3 + 1] = 2.0;
    sdp_SkyCoord *a = sdp_sky_coord_create("icrs", 0.0, 0.5, 0.0), *b = sdp_sky_coord_create("icrs", 0.0, 0.7, 0.0);
    sdp_phase_rotate_vis(a, b, C0, 0.0, uvw.mem, in.mem, o, &st);
    Arr in1(SDP_MEM_COMPLEX_FLOAT, {1, 1, k / np, np}), out1(SDP_MEM_COMPLEX_FLOAT, {1, 1, k / np, np}), uvw1(SDP_MEM_FLOAT, {1, 1, 3});
    for (int64_t i = 0; i < k; ++i) in1.set(i, cd(((std::complex<float>*) in.base)[n - k + i]));
    uvw1.set(1, 2.0);
    sdp_Error s1 = SDP_SUCCESS;
    sdp_phase_rotate_vis(a, b, C0, 0.0, uvw1.mem, in1.mem, out1.mem, &s1);
    int64_t bad = -1;
    for (int64_t i = 0; i < k && bad < 0; ++i) if (std::abs(cd(((std::complex<float>*) out.base)[n - k + i]) - out1.get(i)) > 1e-4) bad = n - k + i;
    sdp_mem_free(o); out.drop(); sdp_sky_coord_free(a); sdp_sky_coord_free(b);
    MC_CHECK(!st && !s1, "huge", "refused (%d)", st);
    MC_CHECK(std::abs(out1.get(0) - in1.get(0)) > 0.1, "huge", "nothing was rotated");
    MC_CHECK(bad < 0, "huge", "visibility %lld of %lld", (long long) bad, (long long) n);
    mc::state(1);
}
static void body()
{
    if (mc::prop("D01")) d01_huge();
    else if (mc::prop("L01")) l01_huge();
    else if (mc::prop("R01")) r01_huge();
    else if (mc::prop("M02")) m02_huge();
    else if (mc::prop("W01")) w01_huge();
    else if (mc::prop("U02")) u02_huge();
    else if (mc::prop("G01")) rows_huge(false);
    else if (mc::prop("G02")) rows_huge(true);
    else if (mc::prop("F03")) image_huge();
    else if (mc::flip("image")) image_huge();
    else g05_huge();
}
MC_MAIN(body)
