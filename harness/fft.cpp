// F01: FFT plans against the DFT definition.  F02: padded size.  F03: phase, norm, shifted execution.
// F04: FFT-based convolution against the direct sum.
#include "mc/arr.hpp"
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft_padded_size.h"
#include "ska-sdp-func/numeric_functions/sdp_fft_convolution.h"

typedef std::vector<cd> V;
static cd tw(int64_t num, int64_t n, int sign)
{
    num %= n; if (num < 0) num += n;
    double a = sign * 2.0 * M_PI * (double) num / (double) n;
    return cd(cos(a), sin(a));
}
// Transform along one axis, straight from the definition.
static V dft_axis(const V& in, const Shape& sh, int axis, int sign)
{
    int64_t n = sh[axis], inner = 1, outer = 1;
    for (int i = 0; i < axis; ++i) outer *= sh[i];
    for (size_t i = axis + 1; i < sh.size(); ++i) inner *= sh[i];
    V w(n); for (int64_t i = 0; i < n; ++i) w[i] = tw(i, n, sign);
    V out(in.size());
    for (int64_t o = 0; o < outer; ++o) for (int64_t q = 0; q < inner; ++q) for (int64_t k = 0; k < n; ++k)
    {
        cd s = 0;
        for (int64_t m = 0; m < n; ++m)
        {
            cd x = in[(o * n + m) * inner + q];
            if (x != cd(0, 0)) s += x * w[(k * m) % n];
        }
        out[(o * n + k) * inner + q] = s;
    }
    return out;
}
static V dft(V in, const Shape& sh, int nd_fft, int fwd)
{
    for (int a = (int) sh.size() - nd_fft; a < (int) sh.size(); ++a) in = dft_axis(in, sh, a, fwd ? -1 : 1);
    return in;
}
static const sdp_MemType CT[] = {SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
static double tol(sdp_MemType t, double n, double amp)
{
    return (t == SDP_MEM_COMPLEX_FLOAT ? 2e-6 : 4e-15) * (4 + sqrt(n)) * amp + 1e-300;
}

static void check_exec(sdp_Fft* fft, Arr& in, Arr& out, int nd_fft, int fwd, const V& ref, double amp, const char* what)
{
    sdp_Error st = SDP_SUCCESS;
    V before = in.all();
    mc::calls(); sdp_fft_exec(fft, in.mem, out.mem, &st);
    MC_CHECK(st == SDP_SUCCESS, "fft-status", "exec failed %d: %s", st, what);
    double n = 1; for (int a = in.nd() - nd_fft; a < in.nd(); ++a) n *= in.shape[a];
    double d = max_diff(out.all(), ref);
    MC_CHECK(d <= tol(in.type, n, amp), "fft-value", "%s %s %s nd=%d fwd=%d: max error %g (tol %g)", what,
            shape_str(in.shape).c_str(), tname(in.type), nd_fft, fwd, d, tol(in.type, n, amp));
    if (out.data != in.data) MC_CHECK(max_diff(in.all(), before) == 0, "fft-input", "input modified by out-of-place transform");
    mc::state(hash_vals(out.all()));
}

static std::vector<std::pair<Shape, int>> fft_cases()
{
    std::vector<std::pair<Shape, int>> c;
    const bool q = mc::quick();
    for (int n = 1; n <= (q ? 40 : 136); ++n) c.push_back({{n}, 1});
    for (int n : {47, 49, 53, 61, 64, 97, 101, 121, 127, 128, 130, 131, 137, 169, 211, 242, 243, 256, 257, 289, 343,
            361, 509, 512, 1009, 1024})
        if (q ? n <= 257 : true) c.push_back({{n}, 1});
    for (int b = 1; b <= 6; ++b)
        for (int n : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 22, 25, 30, 61, 64}) c.push_back({{b, n}, 1});
    int m = q ? 9 : 16;
    for (int a = 1; a <= m; ++a) for (int b = 1; b <= m; ++b) c.push_back({{a, b}, 2});
    for (auto s : {Shape{16, 5}, Shape{5, 16}, Shape{11, 22}, Shape{13, 4}, Shape{17, 3}, Shape{1, 32}, Shape{32, 1}, Shape{20, 20},
            Shape{2, 61}, Shape{61, 2}}) c.push_back({s, 2});
    int m3 = q ? 4 : 6;
    for (int a = 1; a <= m3; ++a) for (int b = 1; b <= m3; ++b) for (int d = 1; d <= m3; ++d)
    { c.push_back({{a, b, d}, 2}); c.push_back({{a, b, d}, 3}); }
    for (auto s : {Shape{2, 7, 8}, Shape{5, 6, 5}, Shape{3, 11, 4}, Shape{9, 2, 3}}) { c.push_back({s, 2}); c.push_back({s, 3}); }
    for (auto s : {Shape{2, 2, 3, 4}, Shape{1, 5, 2, 3}, Shape{3, 4, 3, 2}, Shape{2, 1, 1, 5}}) { c.push_back({s, 3}); c.push_back({s, 4}); }
    return c;
}

// a flag is any non-zero value
static int truth(int64_t k) { static const int T[] = {1, 2, -1, 256, 65536}; return T[k % 5]; }
static void f01_transform()
{
    static std::vector<std::pair<Shape, int>> cases = fft_cases();
    auto& c = cases[mc::choose((int) cases.size(), "case")];
    sdp_MemType t = CT[mc::choose(2, "type")];
    int fwd = mc::choose(2, "forward");
    int inplace = mc::choose(2, "in-place");
    mc::context("fft exec %s", shape_str(c.first).c_str());
    sdp_Error st = SDP_SUCCESS;
    Arr in(t, c.first), out(t, c.first);
    sdp_Fft* fft = sdp_fft_create(in.mem, inplace ? in.mem : out.mem, c.second, fwd ? truth(in.size()) : 0, &st);
    MC_CHECK(fft && st == SDP_SUCCESS, "fft-status", "create failed %d", st);
    int64_t N = in.size();
    double n = 1; for (int a = in.nd() - c.second; a < in.nd(); ++a) n *= c.first[a];
    // every basis vector (complete for a linear operator), then a dense vector, then all ones
    int64_t step = (mc::quick() && N > 140) ? N / 70 : 1;
    for (int64_t k = -2; k < N; k += (k < 0 ? 1 : step))
    {
        fill_hash(out, 99 + k);
        if (k == -2) fill_hash(in, 5);
        else if (k == -1) in.fill(1.0);
        else { in.fill(0); in.set(k, cd(0.5, -1.0)); }
        V x = in.all();
        V ref = dft(x, c.first, c.second, fwd);
        check_exec(fft, in, inplace ? in : out, c.second, fwd, ref, k < 0 ? sqrt(n) * 1.5 + 2 : 1.2, k < 0 ? "dense" : "impulse");
        if (!inplace && k == -2)
        {
            // opposite direction undoes it (times the number of elements)
            Arr back(t, c.first);
            sdp_Fft* inv = sdp_fft_create(out.mem, back.mem, c.second, !fwd, &st);
            for (auto& v : x) v *= n;
            check_exec(inv, out, back, c.second, !fwd, x, n * 2, "round trip");
            sdp_fft_free(inv);
        }
    }
    sdp_fft_free(fft);
}

// Histories: several live plans, interleaved, with evictions from the plan cache in between.
static void f01_history()
{
    static const std::pair<Shape, int> P[] = {{{12}, 1}, {{61}, 1}, {{3, 12}, 1}, {{6, 5}, 2}, {{2, 4, 6}, 2}};
    const int NP = 5;
    struct L { sdp_Fft* f; std::unique_ptr<Arr> in, out; int p, fwd; };
    std::vector<L> live;
    sdp_MemType t = CT[mc::choose(2, "type")];
    const int depth = mc::quick() ? 4 : 5;
    mc::context("fft history");
    for (int s = 0; s < depth; ++s)
    {
        // 0: create (5 kinds x direction), 1: run each live plan, 2: free oldest, 3: run 18 other lengths, 4: exec wrong array
        int op = mc::choose(live.empty() ? 2 : 5, "op");
        sdp_Error st = SDP_SUCCESS;
        if (op == 0)
        {
            int k = mc::choose(NP, "plan"), fwd = mc::choose(2, "fwd");
            L l; l.p = k; l.fwd = fwd;
            l.in.reset(new Arr(t, P[k].first)); l.out.reset(new Arr(t, P[k].first));
            // the plan must not depend on the lifetime of the arrays used to make it
            Arr a(t, P[k].first), b(t, P[k].first);
            l.f = sdp_fft_create(a.mem, b.mem, P[k].second, fwd, &st);
            MC_CHECK(l.f && !st, "fft-status", "create failed");
            live.push_back(std::move(l));
        }
        else if (op == 1 && live.empty()) mc::infeasible();
        else if (op == 1)
        {
            for (auto& l : live)
            {
                fill_hash(*l.in, 100 + s);
                V ref = dft(l.in->all(), P[l.p].first, P[l.p].second, l.fwd);
                check_exec(l.f, *l.in, *l.out, P[l.p].second, l.fwd, ref, 16, "history");
            }
        }
        else if (op == 2) { sdp_fft_free(live[0].f); live.erase(live.begin()); }
        else if (op == 3)
        {
            for (int n = 70; n < 88; ++n)
            {
                Arr a(t, {n}), b(t, {n}); fill_hash(a, n);
                sdp_Fft* f = sdp_fft_create(a.mem, b.mem, 1, 1, &st);
                check_exec(f, a, b, 1, 1, dft(a.all(), a.shape, 1, 1), 16, "other length");
                sdp_fft_free(f);
            }
        }
        else
        {
            // arrays which do not match the plan are refused and left alone
            L& l = live.back();
            int wrong = mc::choose(4, "mismatch");
            sdp_MemType t2 = wrong == 0 ? CT[t == CT[0]] : t;
            Shape s2 = P[l.p].first;
            if (wrong == 1) s2.back() += 1;
            if (wrong == 2) s2.insert(s2.begin(), 1);
            Arr a(t2, s2), b(t2, s2); fill_hash(a, 3); fill_hash(b, 4);
            if (wrong == 3) sdp_mem_set_read_only(b.mem, 1);
            auto before = b.all();
            mc::calls(); sdp_fft_exec(l.f, a.mem, b.mem, &st);
            MC_CHECK(st != SDP_SUCCESS, "fft-mismatch", "mismatching array (%d) accepted", wrong);
            MC_CHECK(max_diff(b.all(), before) == 0, "fft-mismatch", "refused transform wrote to its output");
        }
    }
    for (auto& l : live) sdp_fft_free(l.f);
}

static void f01_reject()
{
    // every combination of mutated create arguments
    static const sdp_MemType T[] = {SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_FLOAT, SDP_MEM_INT, SDP_MEM_CHAR};
    int nd = 1 + mc::choose(3, "dims");
    sdp_MemType ti = T[mc::choose(6, "in type")], to = T[mc::choose(6, "out type")];
    Layout li = (Layout) mc::choose(4, "in layout"), lo = (Layout) mc::choose(4, "out layout");
    int nfft = mc::choose(6, "fft dims") - 1;
    int shape_mut = mc::choose(2 + nd, "shape");   // 0 same, 1 extra dim, 2+i size differs
    int ro = mc::choose(2, "read only");
    int gpu = mc::choose(4, "gpu");
    if (mc::quick() && (ti != T[0]) + (to != T[0]) + (li != 0) + (lo != 0) + (shape_mut != 0) + ro + (gpu != 0) > 3) mc::infeasible();
    Shape s(nd, 3), s2 = s;
    if (shape_mut == 1) s2.push_back(1);
    if (shape_mut >= 2) s2[shape_mut - 2] += 1;
    Arr in(ti, s, li, (gpu & 1) ? SDP_MEM_GPU : SDP_MEM_CPU), out(to, s2, lo, (gpu & 2) ? SDP_MEM_GPU : SDP_MEM_CPU);
    fill_hash(in, 1, 50); fill_hash(out, 2, 50);
    sdp_mem_set_read_only(out.mem, ro);
    std::string bi = in.bytes(), bo = out.bytes();
    mc::context("fft create");
    sdp_Error st = SDP_SUCCESS;
    sdp_Fft* f = sdp_fft_create(in.mem, out.mem, nfft, 1, &st);
    bool cx = (ti & SDP_MEM_COMPLEX) && (to & SDP_MEM_COMPLEX) && ti == to;
    bool good = cx && sdp_mem_is_c_contiguous(in.mem) && sdp_mem_is_c_contiguous(out.mem) && shape_mut == 0 && !ro && gpu == 0
            && nfft >= 1 && (nfft == nd || nfft == nd - 1);
    if (!st) sdp_fft_exec(f, in.mem, out.mem, &st);
    MC_CHECK((st == SDP_SUCCESS) == good, "fft-accept", "%s: in %s%s lay %d out %s%s lay %d fft dims %d ro %d gpu %d",
            st ? "valid arguments refused" : "invalid arguments accepted", tname(ti), shape_str(s).c_str(), li, tname(to),
            shape_str(s2).c_str(), lo, nfft, ro, gpu);
    MC_CHECK(in.bytes() == bi, "fft-input", "input modified");
    if (!good) MC_CHECK(out.bytes() == bo, "fft-accept", "output modified by refused call");
    sdp_fft_free(f);
    mc::state(st);
}

static void f02()
{
    static std::vector<int64_t> smooth;
    if (smooth.empty())
    {
        std::set<int64_t> s{2};
        const int64_t LIM = 1ll << 31;
        for (auto it = s.begin(); it != s.end(); ++it)
            for (int p : {2, 3, 5, 7, 11}) if (*it * p <= LIM) s.insert(*it * p);
        smooth.assign(s.begin(), s.end());
    }
    static const double F[] = {1.0, 1.05, 1.1, 1.2, 1.25, 1.3, 1.5, 1.75, 2.0, 2.5, 3.0, 0.5, 0.9};
    int block = mc::choose(mc::quick() ? 16 : 256, "block");
    double f = F[mc::choose(13, "padding")];
    int kind = mc::choose(2, "kind");
    mc::context("padded size");
    auto check = [&](int64_t n) {
        double target = ceil(n * f);
        if (target > (mc::quick() ? 2e6 : 1e9) || n > 1000000000) return;
        auto it = std::lower_bound(smooth.begin(), smooth.end(), (int64_t) target);
        mc::calls(); int r = sdp_fft_padded_size((int) n, f);
        MC_CHECK(r == *it, "padded-size", "padded_size(%ld, %g) = %d, expected %ld", (long) n, f, r, (long) *it);
        mc::state(r);
    };
    if (kind == 0) { for (int i = 0; i < 256; ++i) check(block * 256 + i); }
    else
    {
        // around every smooth number (every point where the answer changes)
        size_t nb = mc::quick() ? 16 : 256;
        for (size_t i = block; i < smooth.size(); i += nb)
            for (int d = -1; d <= 1; ++d) check((int64_t) floor(smooth[i] / f) + d);
    }
}

static V checker(V v, const Shape& s)
{
    for (int64_t i = 0; i < s[0]; ++i) for (int64_t j = 0; j < s[1]; ++j) if ((i + j) & 1) v[i * s[1] + j] = -v[i * s[1] + j];
    return v;
}
static void f03()
{
    int m = mc::quick() ? 9 : 17;
    Shape s{1 + mc::choose(m, "rows"), 1 + mc::choose(m, "cols")};
    sdp_MemType t = CT[mc::choose(2, "type")];
    int op = mc::choose(4, "op");
    mc::context("fft op %d", op);
    sdp_Error st = SDP_SUCCESS;
    double eps = t == CT[0] ? 2e-6 : 1e-14;
    if (op < 2)
    {
        Layout lay = (Layout) mc::choose(4, "layout");
        Arr a(t, s, lay);
        fill_hash(a, 1, 3.0);
        V before = a.all(), ref;
        mc::calls();
        if (op == 0) { sdp_fft_phase(a.mem, &st); ref = checker(before, s); eps = 0; }
        else { sdp_fft_norm(a.mem, &st); ref = before; for (auto& v : ref) v /= (double) (s[0] * s[1]); }
        MC_CHECK(!st, "fft-op-status", "failed");
        MC_CHECK(max_diff(a.all(), ref) <= eps * 3, op == 0 ? "fft-phase" : "fft-norm", "wrong for %s layout %d", shape_str(s).c_str(), lay);
        if (lay == L_PAD)
        {
            for (int64_t i = 0; i + 1 < a.size(); ++i)
                for (int64_t k = 0; k < (int64_t) tsize(t); ++k)
                    MC_CHECK(a.at(i)[tsize(t) + k] == 0x5a, "fft-op-gap", "wrote between elements");
        }
        mc::state(hash_vals(a.all()));
        return;
    }
    int fwd = mc::choose(2, "fwd"), norm = op - 2;
    Arr a(t, s), b(t, s);
    sdp_Fft* fft = sdp_fft_create(b.mem, b.mem, 2, fwd ? truth(s[0]) : 0, &st);
    for (int64_t k = -1; k < a.size(); ++k)
    {
        if (k < 0) fill_hash(a, 7); else { a.fill(0); a.set(k, cd(1, 0.5)); }
        V ref = checker(dft(checker(a.all(), s), s, 2, fwd), s);
        double n = s[0] * s[1];
        if (norm) for (auto& v : ref) v /= n;
        mc::calls(); sdp_fft_exec_shift(fft, a.mem, norm ? truth(s[0] + 2 * s[1] + k + 1) : 0, &st);
        MC_CHECK(!st, "fft-op-status", "exec_shift failed %d", st);
        double d = max_diff(a.all(), ref), amp = (k < 0 ? 2 * sqrt(n) + 2 : 1.2) / (norm ? n : 1);
        MC_CHECK(d <= tol(t, n, amp) * 2, "fft-shift", "%s %s fwd %d norm %d error %g", shape_str(s).c_str(), tname(t), fwd, norm, d);
        mc::state(hash_vals(a.all()));
        // for even sizes this is the transform with the origin in the centre of both arrays
        if (s[0] % 2 == 0 && s[1] % 2 == 0 && k >= 0)
        {
            int64_t y0 = k / s[1] - s[0] / 2, x0 = k % s[1] - s[1] / 2;
            double sg = ((s[0] / 2 + s[1] / 2) & 1) ? -1 : 1;
            V c(a.size());
            for (int64_t i = 0; i < s[0]; ++i) for (int64_t j = 0; j < s[1]; ++j)
                c[i * s[1] + j] = sg * cd(1, 0.5) * tw((i - s[0] / 2) * y0, s[0], fwd ? -1 : 1) * tw((j - s[1] / 2) * x0, s[1], fwd ? -1 : 1)
                    / (norm ? n : 1.0);
            MC_CHECK(max_diff(a.all(), c) <= tol(t, n, amp) * 2, "fft-shift-centred", "%s not centred", shape_str(s).c_str());
        }
    }
    sdp_fft_free(fft);
}

// images of hundreds of pixels: one input has a few pixels only, so that the direct sum stays affordable
static void f04_large()
{
    static const int SZ[][2] = {{41, 40}, {43, 22}, {40, 43}, {129, 64}, {64, 130}, {200, 101}, {5, 257}, {257, 3}, {300, 211}, {43, 23}, {42, 24}, {65, 65}, {100, 30}};
    const int* sz = SZ[mc::choose(13, "sizes")];
    const int n1 = sz[0], n2 = sz[1];
    const sdp_MemType t = CT[mc::choose(2, "type")];
    const int sparse = mc::choose(2, "sparse input");
    mc::context("convolution of large images, %s", n1 % 2 ? "odd" : "even");
    Arr a(t, {n1, n1}), b(t, {n2, n2}), out(t, {n1, n1});
    fill_hash(a, 1); fill_hash(b, 2); fill_hash(out, 3);
    Arr& sp = sparse ? b : a;
    const int ns = sparse ? n2 : n1;
    sp.fill(0);
    for (int64_t k : {0, ns - 1, ns * (ns - 1), ns * ns - 1, ns / 2 * ns + ns / 2, (ns * ns) / 3, (ns * ns) * 4 / 5}) sp.set(k, cd(0.5 + hashval(k, 3), hashval(k, 4)));
    const V A = a.all(), B = b.all();
    V ref((size_t) n1 * n1, 0);
    const int off = (n2 - 1) / 2;
    if (sparse)
    {
        for (int64_t k = 0; k < (int64_t) n2 * n2; ++k) if (B[k] != cd(0))
            for (int i = 0; i < n1; ++i) for (int j = 0; j < n1; ++j)
            {
                const int p = i + off - (int) (k / n2), q = j + off - (int) (k % n2);
                if (p >= 0 && p < n1 && q >= 0 && q < n1) ref[i * n1 + j] += A[p * n1 + q] * B[k];
            }
    }
    else for (int64_t k = 0; k < (int64_t) n1 * n1; ++k) if (A[k] != cd(0))
        for (int i = 0; i < n1; ++i) for (int j = 0; j < n1; ++j)
        {
            const int u = i + off - (int) (k / n1), v = j + off - (int) (k % n1);
            if (u >= 0 && u < n2 && v >= 0 && v < n2) ref[i * n1 + j] += A[k] * B[u * n2 + v];
        }
    sdp_Error st = SDP_SUCCESS;
    mc::calls(); sdp_fft_convolution(a.mem, b.mem, out.mem, &st);
    MC_CHECK(!st, "conv-status", "failed %d", st);
    const double d = max_diff(out.all(), ref), lim = (t == CT[0] ? 3e-5 : 1e-13) * 30;
    MC_CHECK(d <= lim, "conv-value", "sizes %d,%d error %g", n1, n2, d);
    MC_CHECK(max_diff(a.all(), A) == 0 && max_diff(b.all(), B) == 0, "conv-input", "input modified");
    mc::state(hash_vals(out.all()));
}
static void f04()
{
    if (mc::flip("large")) return f04_large();
    int m1 = mc::quick() ? 9 : 17, m2 = mc::quick() ? 9 : 17;
    int n1 = 1 + mc::choose(m1, "size 1"), n2 = 1 + mc::choose(m2, "size 2");
    sdp_MemType t = CT[mc::choose(2, "type")];
    mc::context("convolution %s", n1 % 2 ? "odd" : "even");
    Arr a(t, {n1, n1}), b(t, {n2, n2}), out(t, {n1, n1});
    // bilinear: impulses on one side, everything on the other, both ways; plus a dense pair
    for (int64_t k = -1; k < (int64_t) n1 * n1 + n2 * n2; ++k)
    {
        fill_hash(a, 1); fill_hash(b, 2); fill_hash(out, 3 + k);
        if (k >= 0 && k < n1 * n1) { a.fill(0); a.set(k, cd(1, -0.5)); }
        else if (k >= 0) { b.fill(0); b.set(k - n1 * n1, cd(0.5, 1)); }
        V A = a.all(), B = b.all(), ref(n1 * n1);
        int off = (n2 - 1) / 2;
        for (int i = 0; i < n1; ++i) for (int j = 0; j < n1; ++j)
        {
            cd s = 0;
            for (int p = 0; p < n1; ++p) for (int q = 0; q < n1; ++q)
            {
                int u = i + off - p, v = j + off - q;
                if (u >= 0 && u < n2 && v >= 0 && v < n2) s += A[p * n1 + q] * B[u * n2 + v];
            }
            ref[i * n1 + j] = s;
        }
        sdp_Error st = SDP_SUCCESS;
        mc::calls(); sdp_fft_convolution(a.mem, b.mem, out.mem, &st);
        MC_CHECK(!st, "conv-status", "failed %d", st);
        double d = max_diff(out.all(), ref), lim = (t == CT[0] ? 3e-6 : 1e-14) * (n1 + n2 + 2) * 4;
        MC_CHECK(d <= lim, "conv-value", "sizes %d,%d case %ld error %g", n1, n2, (long) k, d);
        MC_CHECK(max_diff(a.all(), A) == 0 && max_diff(b.all(), B) == 0, "conv-input", "input modified");
        mc::state(hash_vals(out.all()));
    }
}

static void body()
{
    if (mc::prop("F01"))
    {
        int k = mc::choose(3, "part");
        if (k == 0) f01_transform(); else if (k == 1) f01_history(); else f01_reject();
    }
    else if (mc::prop("F02")) f02();
    else if (mc::prop("F03")) f03();
    else if (mc::prop("F04")) f04();
}
MC_MAIN(body)
