// P01: prolate spheroidal wave functions.   S01: SwiFTly operators and pipelines.
#include "mc/arr.hpp"
#include "harness/pswf_oracle.hpp"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#include "ska-sdp-func/fourier_transforms/sdp_swiftly.h"

// ---------------------------------------------------------------- P01 -----
static double pswf_tol(double c) { return c <= 12 ? 5e-14 : c <= 20.5 ? 3e-11 : c <= 25 ? 1e-9 : 3e-8; }
// Sizes around the powers of two where narrower counters wrap.
static void p01_large(int m, double c, PswfOracle& o, double tol, double S0)
{
    static const int SZ[] = {257, 4096, 32768, 32769, 40001, 65536, 70001, 131074};
    if (m > 2 || fmod(c * 2, 1) != 0) mc::infeasible();
    const int n = SZ[mc::choose(8, "large size")], ec = mc::choose(2, "end correction"), cached = mc::choose(2, "cached");
    mc::context("pswf m=%d large", m);
    sdp_Error st = SDP_SUCCESS;
    sdp_Pswf* p = sdp_pswf_create(m, c);
    Arr a(SDP_MEM_DOUBLE, {n}); fill_hash(a, 1);
    mc::calls(); sdp_pswf_generate(p, cached ? 0 : a.mem, cached ? n : 0, ec, &st);
    MC_CHECK(!st, "pswf-status", "generate failed");
    const sdp_Mem* v = cached ? sdp_pswf_values(p, SDP_MEM_CPU, &st) : a.mem;
    MC_CHECK(!st && v && sdp_mem_num_elements(v) == n, "pswf-status", "cached values");
    const double* d = (const double*) sdp_mem_data_const(v);
    for (int i = n % 2; i < n; ++i)
    {
        if (i % 61 && (i & (i - 1)) && ((i + 1) & i) && i < n - 3 && abs(i - n / 2) > 2) continue;
        const double want = i == 0 ? (ec ? 1e-15 : 0.0) : o(2.0 * (i - n / 2) / n), lim = i == 0 ? 1e-21 : tol;
        MC_CHECK(fabs(d[i] - want) <= lim, "pswf-generate", "m=%d c=%g size %d element %d is %.12g, expected %.12g", m, c, n, i, d[i], want);
    }
    mc::state((uint64_t) n);
    sdp_pswf_free(p);
}
static void p01()
{
    static const double C[] = {0.0, 1e-11, 1e-6, 0.1, 0.5, 1, M_PI / 2, 2, 3, 4, M_PI * 2, 7, 9.5, 12, 13.5625 * M_PI / 2 * 0.6, 15, M_PI * 5, 18, 20,
        13.5625 * M_PI / 2, 23, 25, 27.5, 30};
    const int nc = sizeof C / sizeof *C;
    int m = mc::choose(mc::quick() ? 5 : 9, "m");
    double c = C[mc::choose(nc, "c")];
    mc::context("pswf m=%d", m);
    PswfOracle o(m, c);
    double S0 = 1; for (int k = 1; k <= m; ++k) S0 *= 2 * k - 1;
    double tol = pswf_tol(c) * S0 * (1 + m);
    int part = mc::choose(4, "part");
    if (part == 3) { p01_large(m, c, o, tol, S0); return; }
    mc::calls();
    sdp_Pswf* p = sdp_pswf_create(m, c);
    MC_CHECK(sdp_pswf_par_c(p) == c && sdp_pswf_par_m(p) == m, "pswf-par", "parameters not kept");
    sdp_Error st = SDP_SUCCESS;
    if (part == 0)
    {
        // point evaluation, both signs, and zero outside (-1, 1)
        for (int i = 0; i <= 400; ++i)
        {
            double x = i / 400.0;
            mc::calls();
            double v = sdp_pswf_evaluate(p, x), w = sdp_pswf_evaluate(p, -x);
            MC_CHECK(v == w, "pswf-even", "S(%g)=%g but S(-%g)=%g", x, v, x, w);
            if (i == 400) MC_CHECK(v == 0, "pswf-support", "S(1) = %g", v);
            else MC_CHECK(fabs(v - o(x)) <= tol, "pswf-value", "m=%d c=%g S(%g) = %.15g, expected %.15g", m, c, x, v, o(x));
            mc::state((uint64_t) (v * 1e9));
        }
        for (double x : {1.0 + 1e-9, 1.5, 2.0, 1e6}) MC_CHECK(sdp_pswf_evaluate(p, x) == 0 && sdp_pswf_evaluate(p, -x) == 0,
                    "pswf-support", "non-zero outside its support");
        const sdp_Mem* co = sdp_pswf_coeff(p, SDP_MEM_CPU, &st);
        MC_CHECK(co && !st && sdp_mem_num_elements(co) > 0, "pswf-coeff", "no coefficients");
    }
    else
    {
        static const sdp_MemType T[] = {SDP_MEM_DOUBLE, SDP_MEM_FLOAT, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
        int n = 1 + mc::choose(mc::quick() ? 12 : 40, "size");
        int ec = mc::choose(2, "end correction");
        std::vector<double> want(n);
        for (int i = 0; i < n; ++i) want[i] = (n % 2 == 0 && i == 0) || (i == 0 && n > 1) ? (n % 2 == 0 && ec ? 1e-15 : 0.0)
                    : o(2.0 * (i - n / 2) / n);
        auto check = [&](const std::vector<cd>& got, double eps, const char* what) {
            for (int i = 0; i < n; ++i)
            {
                if (n % 2 && i == 0 && n > 1) continue; // first element of odd sizes is left open
                double lim = (i == 0 && n > 1) ? 1e-21 : tol + eps * S0;
                MC_CHECK(std::abs(got[i] - want[i]) <= lim, "pswf-generate", "%s m=%d c=%g size %d element %d is %.12g, expected %.12g",
                        what, m, c, n, i, got[i].real(), want[i]);
            }
            mc::state(hash_vals(got));
        };
        if (part == 1)
        {
            sdp_MemType t = T[mc::choose(4, "type")];
            Layout lay = (Layout) mc::choose(2, "layout");
            Arr a(t, {n}, lay); fill_hash(a, 1);
            double eps = t_is_single(t) ? 2e-7 : 0;
            mc::calls(); sdp_pswf_generate(p, a.mem, 0, ec, &st);
            MC_CHECK(!st, "pswf-status", "generate failed");
            check(a.all(), eps, "generate(out)");
            if (!ec)
            {
                fill_hash(a, 1);
                mc::calls(); sdp_generate_pswf(m, c, a.mem, &st);
                MC_CHECK(!st, "pswf-status", "sdp_generate_pswf failed");
                check(a.all(), eps, "sdp_generate_pswf");
            }
        }
        else
        {
            // cached values: regenerated with another size each time, always those of the last call
            int n2 = 1 + mc::choose(12, "first size");
            mc::calls(2);
            sdp_pswf_generate(p, 0, n2, 1 - ec, &st);
            sdp_pswf_generate(p, 0, n, ec, &st);
            const sdp_Mem* v = sdp_pswf_values(p, SDP_MEM_CPU, &st);
            MC_CHECK(!st && v && sdp_mem_num_elements(v) == n && sdp_mem_type(v) == SDP_MEM_DOUBLE, "pswf-status", "cached values");
            std::vector<cd> got;
            for (int i = 0; i < n; ++i) got.push_back(((const double*) sdp_mem_data_const(v))[i]);
            check(got, 0, "generate(cached)");
            Arr a(SDP_MEM_DOUBLE, {n});
            fill_hash(a, 3); auto before = a.all();
            // exactly one of 'out' and 'size' must be given
            sdp_pswf_generate(p, a.mem, n, ec, &st);
            MC_CHECK(st && max_diff(a.all(), before) == 0, "pswf-status", "out and size accepted together");
            st = SDP_SUCCESS; sdp_pswf_generate(p, 0, 0, ec, &st);
            MC_CHECK(st, "pswf-status", "neither out nor size accepted");
        }
    }
    sdp_pswf_free(p);
}

// ---------------------------------------------------------------- S01 -----
struct Cfg { int N, yN, xM; double W; };
static const Cfg CFG[] = {{16, 8, 8, 2.0}, {24, 12, 8, 3.25}, {24, 12, 6, 2.5}, {32, 8, 16, 2.5}, {32, 16, 16, 4.0}, {48, 24, 16, 5.5}, {16, 16, 8, 3}, {16, 8, 16, 3},
    {36, 12, 18, 4}, {48, 12, 12, 2}, {40, 20, 8, 3}, {60, 20, 12, 4}, {64, 32, 32, 6}, {96, 48, 24, 7}};
struct Plan
{
    Cfg c; int M, sx, sy; std::vector<double> Fb, Fn; sdp_SwiFTly* h = 0;
    Plan(const Cfg& cfg) : c(cfg)
    {
        sdp_Error st = SDP_SUCCESS;
        mc::calls(); h = sdp_swiftly_create(c.N, c.yN, c.xM, c.W, &st);
        MC_CHECK(h && !st, "swiftly-create", "create(%d,%d,%d) failed %d", c.N, c.yN, c.xM, st);
        M = c.xM * c.yN / c.N; sx = c.N / c.xM; sy = c.N / c.yN;
        PswfOracle o(0, c.W * M_PI / 2);
        Fb.resize(c.yN); Fn.resize(M);
        for (int j = 0; j < c.yN; ++j) Fb[j] = j == 0 ? 0.0 : o(2.0 * (j - c.yN / 2) / c.yN);
        for (int i = 0; i < M; ++i) Fn[i] = Fb[(c.yN / 2) % sx + i * sx];
        for (int j = 1; j < c.yN; ++j) Fb[j] = 1 / Fb[j];
    }
    ~Plan() { sdp_swiftly_free(h); }
};
static int64_t md(int64_t a, int64_t b) { a %= b; return a < 0 ? a + b : a; }
static cd ex(int64_t num, int64_t den) { double a = 2 * M_PI * (double) md(num, den) / den; return cd(cos(a), sin(a)); }
typedef std::vector<cd> V;

enum Op { PREP_F, EXTR_F, ADD_S, FIN_S, FIN_SI, PREP_S, EXTR_S, ADD_F, FIN_F, NOP1 };
static const char* OPN[] = {"prepare_facet", "extract_from_facet", "add_to_subgrid", "finish_subgrid", "finish_subgrid_inplace",
    "prepare_subgrid_inplace", "extract_from_subgrid", "add_to_facet", "finish_facet"};

// The operators, written from their definitions with every index taken modulo the array it indexes.
static V op_ref(const Plan& p, int op, const V& in, int nout, int64_t off)
{
    const int yN = p.c.yN, xM = p.c.xM, M = p.M, n = (int) in.size();
    V out(nout, 0.0);
    const int64_t f = md(off, p.c.N) / p.sx, s = off / p.sy;
    switch (op)
    {
    case PREP_F:
        for (int k = 0; k < yN; ++k) for (int j = 0; j < n; ++j)
                out[k] += in[j] * p.Fb[yN / 2 - n / 2 + j] * ex((int64_t) k * (j - n / 2 + off), yN) / (double) yN;
        break;
    case EXTR_F:
        for (int q = 0; q < M; ++q) for (int64_t k = s - M / 2; k < s - M / 2 + M; ++k)
                out[q] += in[md(k, yN)] * ex(-k * q, M);
        break;
    case ADD_S:
        for (int i = 0; i < M; ++i) out[md(i - M / 2 + xM / 2 + f, xM)] += p.Fn[i] * in[md(i - M / 2 + f, M)];
        break;
    case FIN_S: case FIN_SI:
        for (int i = 0; i < nout; ++i) for (int m = 0; m < xM; ++m)
                out[i] += in[m] * ex((int64_t) (m - xM / 2) * (i - nout / 2 + off), xM) / (double) xM;
        break;
    case PREP_S:
        for (int m = 0; m < xM; ++m) for (int i = 0; i < n; ++i)
                out[m] += in[i] * ex(-(int64_t) (m - xM / 2) * (i - n / 2 + off), xM);
        break;
    case EXTR_S:
    {
        V c(M, 0.0);
        for (int i = 0; i < M; ++i) c[md(i - M / 2 + f, M)] = p.Fn[i] * in[md(i - M / 2 + xM / 2 + f, xM)];
        for (int r = 0; r < M; ++r) for (int q = 0; q < M; ++q) out[r] += c[q] * ex((int64_t) r * q, M) / (double) M;
        break;
    }
    case ADD_F:
        for (int64_t k = s - M / 2; k < s - M / 2 + M; ++k) out[md(k, yN)] += in[md(k, M)];
        break;
    case FIN_F:
        for (int j = 0; j < nout; ++j) for (int k = 0; k < yN; ++k)
                out[j] += in[k] * ex(-(int64_t) k * (j - nout / 2 + off), yN) * p.Fb[yN / 2 - nout / 2 + j];
        break;
    }
    return out;
}
static bool inplace(int op) { return op == FIN_SI || op == PREP_S; }
static bool accumulates(int op) { return op == ADD_S || op == ADD_F; }
static void op_call(const Plan& p, int op, sdp_Mem* in, sdp_Mem* out, int64_t off, sdp_Error* st)
{
    mc::calls();
    switch (op)
    {
    case PREP_F: sdp_swiftly_prepare_facet(p.h, in, out, off, st); break;
    case EXTR_F: sdp_swiftly_extract_from_facet(p.h, in, out, off, st); break;
    case ADD_S: sdp_swiftly_add_to_subgrid(p.h, in, out, off, st); break;
    case FIN_S: sdp_swiftly_finish_subgrid(p.h, in, out, off, st); break;
    case FIN_SI: sdp_swiftly_finish_subgrid_inplace(p.h, out, off, st); break;
    case PREP_S: sdp_swiftly_prepare_subgrid_inplace(p.h, out, off, st); break;
    case EXTR_S: sdp_swiftly_extract_from_subgrid(p.h, in, out, off, st); break;
    case ADD_F: sdp_swiftly_add_to_facet(p.h, in, out, off, st); break;
    case FIN_F: sdp_swiftly_finish_facet(p.h, in, out, off, st); break;
    }
}
static void sizes(const Plan& p, int op, int var, int* nin, int* nout)
{
    const int yN = p.c.yN, xM = p.c.xM, M = p.M;
    switch (op)
    {
    case PREP_F: *nin = var; *nout = yN; break;
    case EXTR_F: *nin = yN; *nout = M; break;
    case ADD_S: *nin = M; *nout = xM; break;
    case FIN_S: *nin = xM; *nout = var; break;
    case FIN_SI: case PREP_S: *nin = *nout = xM; break;
    case EXTR_S: *nin = xM; *nout = M; break;
    case ADD_F: *nin = M; *nout = yN; break;
    case FIN_F: *nin = yN; *nout = var; break;
    }
}
static int var_max(const Plan& p, int op) { return op == PREP_F || op == FIN_F ? p.c.yN : op == FIN_S ? p.c.xM : 1; }
static int64_t pick_off(const Plan& p, int op, const char* l)
{
    bool fct = op == PREP_F || op == ADD_S || op == EXTR_S || op == FIN_F;
    int step = fct ? p.sx : p.sy;
    int n = p.c.N / step;                     // steps in one period
    int span = mc::quick() ? n + n / 2 : 2 * n;
    return (int64_t) step * (mc::choose(2 * span + 1, l) - span);
}
static const Plan& plan_of(const Cfg& c)
{
    static std::map<const Cfg*, std::unique_ptr<Plan>> plans;
    auto& p = plans[&c];
    if (!p) p.reset(new Plan(c));
    return *p;
}

static void s01_ops1d()
{
    int nc = mc::quick() ? 10 : 13;
    const Plan& p = plan_of(CFG[mc::choose(nc, "cfg")]);
    int op = mc::choose(9, "op");
    int64_t off = pick_off(p, op, "offset");
    int vm = var_max(p, op);
    int var = vm > 1 ? 1 + mc::choose(vm, "size") : 1;
    mc::context("swiftly %s", OPN[op]);
    int nin, nout; sizes(p, op, var, &nin, &nout);
    // rows: every input basis vector, then one dense row (broadcast along the first axis)
    int rows = nin + 1;
    for (int lay = 0; lay < 3; ++lay)
    {
        Arr in(SDP_MEM_COMPLEX_DOUBLE, {rows, nin}, inplace(op) ? L_C : (Layout) ((lay + 1) % 3)),
            out(SDP_MEM_COMPLEX_DOUBLE, {rows, nout}, (Layout) lay);
        fill_hash(in, 5);
        for (int r = 0; r < nin; ++r) for (int j = 0; j < nin; ++j) in.set({r, j}, j == r ? cd(1, 0) : cd(0, 0));
        fill_hash(out, 6);
        if (inplace(op)) for (int64_t i = 0; i < in.size(); ++i) out.set(i, in.get(i));
        V out0 = out.all(), in0 = in.all();
        sdp_Error st = SDP_SUCCESS;
        op_call(p, op, in.mem, out.mem, off, &st);
        MC_CHECK(!st, "swiftly-status", "%s failed %d", OPN[op], st);
        double scale = 1; for (auto v : p.Fb) if (op == PREP_F || op == FIN_F) scale = std::max(scale, std::abs(v));
        for (int r = 0; r < rows; ++r)
        {
            V x(nin); for (int j = 0; j < nin; ++j) x[j] = in0[r * nin + j];
            V ref = op_ref(p, op, x, nout, off);
            for (int j = 0; j < nout; ++j)
            {
                cd want = ref[j] + (accumulates(op) ? out0[r * nout + j] : cd(0, 0));
                MC_CHECK(std::abs(out.get({r, j}) - want) <= 2e-10 * scale, "swiftly-op",
                        "%s N=%d yN=%d xM=%d offset %ld size %d layout %d row %d element %d: error %g", OPN[op], p.c.N, p.c.yN, p.c.xM,
                        (long) off, var, lay, r, j, std::abs(out.get({r, j}) - want));
            }
        }
        if (!inplace(op) && op != FIN_F) MC_CHECK(max_diff(in.all(), in0) == 0, "swiftly-input", "%s modified its input", OPN[op]);
        if (lay == 1)
            for (int64_t i = 0; i + 1 < out.size(); ++i) for (int k = 0; k < 16; ++k)
                    MC_CHECK(out.at(i)[16 + k] == 0x5a, "swiftly-gap", "%s wrote between elements", OPN[op]);
        mc::state(hash_vals(out.all()));
    }
}

// Offsets many images away, and many rows: the operators are periodic in the image size and treat every row alike.
static void s01_far()
{
    const Plan& p = plan_of(CFG[mc::choose(mc::quick() ? 4 : 9, "cfg")]);
    const int op = mc::choose(9, "op");
    const bool fct = op == PREP_F || op == ADD_S || op == EXTR_S || op == FIN_F;
    const int step = fct ? p.sx : p.sy;
    static const int64_t K[] = {0, 5000, -5000, 200000000, -600000000, 1ll << 34};
    // (prepare_subgrid computes its phases in floating point: an offset of 10^9 pixels costs it 10^-6)
    const int kk = mc::choose(op == PREP_S ? 3 : 6, "images away");
    const int64_t base = (int64_t) step * (mc::choose(5, "offset") * 3 - 5), off = base + K[kk] * p.c.N;
    static const int R[] = {1, 300, 70000};
    const int rows = R[mc::choose(kk ? 2 : 3, "rows")];
    const Layout lay = rows > 300 ? L_C : (Layout) mc::choose(3, "layout");
    mc::context("swiftly %s far", OPN[op]);
    int nin, nout; sizes(p, op, std::max(1, var_max(p, op) - 1), &nin, &nout);
    Arr in(SDP_MEM_COMPLEX_DOUBLE, {rows, nin}, inplace(op) ? L_C : lay), out(SDP_MEM_COMPLEX_DOUBLE, {rows, nout}, lay);
    fill_hash(in, 5); fill_hash(out, 6);
    if (inplace(op)) for (int64_t i = 0; i < in.size(); ++i) out.set(i, in.get(i));
    V out0 = out.all(), in0 = in.all();
    sdp_Error st = SDP_SUCCESS;
    op_call(p, op, in.mem, out.mem, off, &st);
    MC_CHECK(!st, "swiftly-status", "%s failed %d", OPN[op], st);
    double scale = 1; for (auto v : p.Fb) if (op == PREP_F || op == FIN_F) scale = std::max(scale, std::abs(v));
    const V res = out.all();
    // one reference per basis vector; every row is their combination
    std::vector<V> col;
    for (int j = 0; j < nin; ++j) { V x(nin, 0.0); x[j] = 1; col.push_back(op_ref(p, op, x, nout, base)); }
    for (int r = 0; r < rows; ++r) for (int j = 0; j < nout; ++j)
    {
        cd want = accumulates(op) ? out0[(size_t) r * nout + j] : cd(0, 0);
        for (int i = 0; i < nin; ++i) want += in0[(size_t) r * nin + i] * col[i][j];
        const double d = std::abs(res[(size_t) r * nout + j] - want);
        MC_CHECK(d <= 2e-9 * scale, "swiftly-op", "%s N=%d yN=%d xM=%d offset %ld, %d rows, row %d element %d: error %g", OPN[op], p.c.N,
                p.c.yN, p.c.xM, (long) off, rows, r, j, d);
    }
    mc::state(hash_vals(res));
}

// The 2D operations equal the 1D operation along each axis.
static void s01_ops2d()
{
    int nc = mc::quick() ? 7 : 11;
    const Plan& p = plan_of(CFG[mc::choose(nc, "cfg")]);
    static const int O[] = {ADD_S, FIN_SI, PREP_S, EXTR_S};
    int op = O[mc::choose(4, "op")];
    int64_t o0 = pick_off(p, op, "off0");
    int64_t o1 = mc::quick() ? (mc::choose(9, "off1") - 4) * ((op == ADD_S || op == EXTR_S ? p.c.xM : p.c.yN) / 4)
        * (op == ADD_S || op == EXTR_S ? p.sx : p.sy) : pick_off(p, op, "off1");
    mc::context("swiftly %s 2d", OPN[op]);
    int nin, nout; sizes(p, op, 1, &nin, &nout);
    Layout lay = (Layout) mc::choose(3, "layout");
    Arr in(SDP_MEM_COMPLEX_DOUBLE, {nin, nin}, inplace(op) ? L_C : (Layout) ((lay + 1) % 3)), out(SDP_MEM_COMPLEX_DOUBLE, {nout, nout}, lay);
    fill_hash(in, 8); fill_hash(out, 9);
    if (inplace(op)) for (int64_t i = 0; i < in.size(); ++i) out.set(i, in.get(i));
    V out0 = out.all(), in0 = in.all();
    sdp_Error st = SDP_SUCCESS;
    mc::calls();
    switch (op)
    {
    case ADD_S: sdp_swiftly_add_to_subgrid_2d(p.h, in.mem, out.mem, o0, o1, &st); break;
    case FIN_SI: sdp_swiftly_finish_subgrid_inplace_2d(p.h, out.mem, o0, o1, &st); break;
    case PREP_S: sdp_swiftly_prepare_subgrid_inplace_2d(p.h, out.mem, o0, o1, &st); break;
    default: sdp_swiftly_extract_from_subgrid_2d(p.h, in.mem, out.mem, o0, o1, &st); break;
    }
    MC_CHECK(!st, "swiftly-status", "2d %s failed %d", OPN[op], st);
    V tmp(nin * nout), ref(nout * nout);
    for (int r = 0; r < nin; ++r)
    {
        V x(in0.begin() + r * nin, in0.begin() + (r + 1) * nin), y = op_ref(p, op, x, nout, o1);
        for (int j = 0; j < nout; ++j) tmp[r * nout + j] = y[j];
    }
    for (int j = 0; j < nout; ++j)
    {
        V x(nin); for (int r = 0; r < nin; ++r) x[r] = tmp[r * nout + j];
        V y = op_ref(p, op, x, nout, o0);
        for (int r = 0; r < nout; ++r) ref[r * nout + j] = y[r] + (op == ADD_S ? out0[r * nout + j] : cd(0, 0));
    }
    double d = max_diff(out.all(), ref);
    MC_CHECK(d <= 1e-9, "swiftly-2d", "%s_2d N=%d yN=%d xM=%d offsets %ld,%ld layout %d: error %g", OPN[op], p.c.N, p.c.yN, p.c.xM, (long) o0,
            (long) o1, lay, d);
    if (!inplace(op)) MC_CHECK(max_diff(in.all(), in0) == 0, "swiftly-input", "2d %s modified its input", OPN[op]);
    mc::state(hash_vals(out.all()));
}

// Facets -> subgrid and subgrid -> facet against the Fourier transform of the whole image.
static void s01_pipeline()
{
    static const Cfg BIG[] = {{128, 64, 32, 8.0}, {192, 96, 64, 9.0}, {96, 48, 48, 8.0}, {128, 32, 64, 8}, {144, 72, 24, 7}, {288, 72, 36, 6}};
    const Plan& p = plan_of(BIG[mc::choose(6, "cfg")]);
    int dir = mc::choose(2, "direction");
    const int N = p.c.N, n = p.c.yN / 2 - mc::choose(2, "odd facet"); // facet data size
    const int xA = std::max(2, (int) (p.c.xM - p.c.W * N / p.c.yN)) / 2 * 2 - mc::choose(2, "odd subgrid");
    int nf = N / p.sx, ns = N / p.sy;
    int64_t fo = (int64_t) p.sx * (mc::choose(mc::quick() ? 9 : 2 * nf + 1, "facet off") - (mc::quick() ? 4 : nf)) * (mc::quick() ? std::max(1, nf / 4) : 1);
    int64_t so = (int64_t) p.sy * (mc::choose(mc::quick() ? 17 : 2 * ns + 1, "subgrid off") - (mc::quick() ? 8 : ns)) * (mc::quick() ? std::max(1, ns / 8) : 1);
    mc::context("swiftly pipeline");
    sdp_Error st = SDP_SUCCESS;
    const double lim = 2e-3;
    if (dir == 0)
    {
        Arr fct(SDP_MEM_COMPLEX_DOUBLE, {n, n}), prep(SDP_MEM_COMPLEX_DOUBLE, {n, p.c.yN}), con(SDP_MEM_COMPLEX_DOUBLE, {n, p.M}),
            img(SDP_MEM_COMPLEX_DOUBLE, {n, p.c.xM}), sg(SDP_MEM_COMPLEX_DOUBLE, {n, xA});
        for (int j = 0; j < n; ++j) fct.set({j, j}, 1.0);
        op_call(p, PREP_F, fct.mem, prep.mem, fo, &st);
        op_call(p, EXTR_F, prep.mem, con.mem, so, &st);
        op_call(p, ADD_S, con.mem, img.mem, fo, &st);
        op_call(p, FIN_S, img.mem, sg.mem, so, &st);
        MC_CHECK(!st, "swiftly-status", "pipeline failed %d", st);
        for (int j = 0; j < n; ++j) for (int i = 0; i < xA; ++i)
        {
            cd want = ex((int64_t) (j - n / 2 + fo) * (i - xA / 2 + so), N);
            double d = std::abs(sg.get({j, i}) * (double) N - want);
            MC_CHECK(d <= lim, "swiftly-pipeline", "facet->subgrid N=%d yN=%d xM=%d facet off %ld subgrid off %ld pixel %d element %d error %g",
                    N, p.c.yN, p.c.xM, (long) fo, (long) so, j, i, d);
        }
        mc::state(hash_vals(sg.all()));
    }
    else
    {
        // one visibility in the subgrid appears as a fringe in the facet
        Arr sg(SDP_MEM_COMPLEX_DOUBLE, {xA, p.c.xM}), con(SDP_MEM_COMPLEX_DOUBLE, {xA, p.M}), acc(SDP_MEM_COMPLEX_DOUBLE, {xA, p.c.yN}),
            fct(SDP_MEM_COMPLEX_DOUBLE, {xA, n});
        for (int i = 0; i < xA; ++i) sg.set({i, i + p.c.xM / 2 - xA / 2}, 1.0);
        op_call(p, PREP_S, 0, sg.mem, so, &st);
        op_call(p, EXTR_S, sg.mem, con.mem, fo, &st);
        op_call(p, ADD_F, con.mem, acc.mem, so, &st);
        op_call(p, FIN_F, acc.mem, fct.mem, fo, &st);
        MC_CHECK(!st, "swiftly-status", "pipeline failed %d", st);
        for (int i = 0; i < xA; ++i) for (int j = 0; j < n; ++j)
        {
            cd want = ex(-(int64_t) (j - n / 2 + fo) * (i - xA / 2 + so), N);
            double d = std::abs(fct.get({i, j}) - want);
            MC_CHECK(d <= lim, "swiftly-pipeline", "subgrid->facet N=%d yN=%d xM=%d facet off %ld subgrid off %ld element %d pixel %d error %g",
                    N, p.c.yN, p.c.xM, (long) fo, (long) so, i, j, d);
        }
        mc::state(hash_vals(fct.all()));
    }
}
static void s01_create()
{
    static const int S[] = {-4, 0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 20, 24, 32, 36};
    const int n = sizeof S / sizeof *S;
    int N = S[mc::choose(n, "N")], yN = S[mc::choose(n, "yN")], xM = S[mc::choose(n, "xM")];
    mc::context("swiftly create");
    sdp_Error st = SDP_SUCCESS;
    mc::calls(); sdp_SwiFTly* h = sdp_swiftly_create(N, yN, xM, 2.0, &st);
    bool good = N > 0 && yN > 0 && xM > 0 && N % yN == 0 && N % xM == 0 && (xM * yN) % N == 0 && xM % 2 == 0 && yN % 2 == 0;
    MC_CHECK((h != 0) == good && (st == SDP_SUCCESS) == good, "swiftly-create", "create(%d, yN %d, xM %d): handle %d status %d", N, yN, xM, h != 0, st);
    if (h)
    {
        MC_CHECK(sdp_swiftly_get_image_size(h) == N && sdp_swiftly_get_facet_size(h) == yN && sdp_swiftly_get_subgrid_size(h) == xM,
                "swiftly-create", "sizes not kept");
        sdp_swiftly_free(h);
    }
    mc::state(good);
}
static void body()
{
    if (mc::prop("P01")) { p01(); return; }
    switch (mc::choose(5, "part"))
    {
    case 4: s01_far(); break;
    case 0: s01_ops1d(); break;
    case 1: s01_ops2d(); break;
    case 2: s01_pipeline(); break;
    default: s01_create(); break;
    }
}
MC_MAIN(body)
