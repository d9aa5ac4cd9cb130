// E01: calls made with an error status already set do nothing.
// E02: every argument is either refused (with an error status and nothing written) or honoured, and memory stays in bounds.
#include "harness/api_table.hpp"
#include "harness/track.hpp"
#include <sys/mman.h>
#include "ska-sdp-func/fourier_transforms/sdp_fft_padded_size.h"
#include "ska-sdp-func/utility/sdp_data_model_checks.h"
#include "ska-sdp-func/visibility/sdp_opt_weighting.h"
#include "ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.h"
#include "ska-sdp-func/utility/sdp_sky_coord.h"
#include "ska-sdp-func/utility/sdp_timer.h"

using api::Call;
using api::Array;

struct Bound
{
    std::vector<Arr> arr; api::Mems mem; api::Nums num;
    void* no_access = nullptr;
    ~Bound() { if (no_access) { munmap(no_access, 1 << 16); } }
};

static double to_int(double v) { return v > 2147483647. ? 2147483647. : v < -2147483648. ? -2147483648. : (v == v ? v : 0); }

static void bind(const Call& c, Bound& b)
{
    b.arr.resize(c.arrays.size());
    for (size_t i = 0; i < c.arrays.size(); ++i)
    {
        const Array& a = c.arrays[i];
        b.arr[i].init(a.type, a.shape, L_C);
        for (int64_t k = 0; k < b.arr[i].size(); ++k) b.arr[i].set(k, a.fill(k, a.shape));
        b.mem.push_back(b.arr[i].mem);
    }
    for (auto& s : c.scalars) b.num.push_back(s.value);
}

// Replace array i by one of another type, shape or layout, holding the values of the original as far as they go.
static bool rebind(const Call& c, Bound& b, size_t i, sdp_MemType t, const Shape& s, Layout lay)
{
    const Array& a = c.arrays[i];
    Arr old; old.init(a.type, a.shape, L_C);
    for (int64_t k = 0; k < old.size(); ++k) old.set(k, a.fill(k, a.shape));
    b.arr[i].init(t, s, lay);
    bool exact = true;
    const bool cx = (t & SDP_MEM_COMPLEX) == SDP_MEM_COMPLEX;
    for (int64_t k = 0; k < b.arr[i].size(); ++k)
    {
        cd v = k < old.size() ? old.get(k) : cd(0, 0);
        if (t == SDP_MEM_INT) v = cd(to_int(v.real()), 0);
        if (t == SDP_MEM_CHAR) v = cd(std::max(-128., std::min(127., to_int(v.real()))), 0);
        b.arr[i].set(k, v);
        if (b.arr[i].get(k) != v || (!cx && v.imag() != 0)) exact = false;
        if (k < old.size() && v != old.get(k)) exact = false;
    }
    b.mem[i] = b.arr[i].mem;
    return exact && b.arr[i].size() == old.size();
}

static std::vector<std::string> snapshot(const Bound& b) { std::vector<std::string> v; for (auto& a : b.arr) v.push_back(a.bytes()); return v; }

static void untouched(const Call& c, const Bound& b, const std::vector<std::string>& was, bool outputs_too, const char* when)
{
    for (size_t i = 0; i < c.arrays.size(); ++i)
        if (outputs_too || c.arrays[i].role == api::IN)
            MC_CHECK(was[i] == b.arr[i].bytes(), (outputs_too && c.arrays[i].role != api::IN ? "output-changed:" : "input-changed:") + c.name,
                "%s: %s: %s was modified", c.name.c_str(), when, c.arrays[i].name.c_str());
}

struct Base { bool done = false; std::vector<std::vector<cd>> vals; api::Nums ret; std::vector<double> scale; };
static Base& baseline(int ci)
{
    static std::map<int, Base> cache;
    Base& r = cache[ci];
    if (r.done) return r;
    const Call& c = api::table()[ci];
    Bound b; bind(c, b);
    auto was = snapshot(b);
    sdp_Error st = SDP_SUCCESS;
    mc::context("%s: valid call", c.name.c_str());
    mc::calls();
    c.run(b.mem, b.num, &st, r.ret);
    MC_CHECK(!st, "valid-call:" + c.name, "%s: a valid call failed with status %d", c.name.c_str(), (int) st);
    untouched(c, b, was, false, "valid call");
    for (auto& a : b.arr) { r.vals.push_back(a.all()); r.scale.push_back(max_abs(r.vals.back())); }
    r.done = true;
    return r;
}

static const sdp_MemType TYPES[] = {SDP_MEM_CHAR, SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};

static void compare(const Call& c, int ci, const Bound& b, const api::Nums& ret, const char* what)
{
    Base& base = baseline(ci);
    for (size_t i = 0; i < c.arrays.size(); ++i) if (c.arrays[i].role == api::OUT || c.arrays[i].role == api::INOUT)
    {
        const double d = max_diff(b.arr[i].all(), base.vals[i]), tol = std::max(c.tol, 1e-6) * 20 * (1 + base.scale[i]);
        MC_CHECK(d <= tol, "accepted-wrong:" + c.name, "%s: accepted %s, but %s differs by %g from the result for plain arrays",
            c.name.c_str(), what, c.arrays[i].name.c_str(), d);
    }
    for (size_t i = 0; i < ret.size() && i < base.ret.size(); ++i)
        MC_CHECK(fabs(ret[i] - base.ret[i]) <= 1e-4 * (1 + fabs(base.ret[i])), "accepted-wrong:" + c.name, "%s: accepted %s, but the result differs (%g, not %g)",
            c.name.c_str(), what, ret[i], base.ret[i]);
}

// One deviation of one argument of call c. Returns its description; 'compare_it' when an accepted call must give the plain result;
// 'refuse' when it must not be accepted.
static std::string deviate(const Call& c, Bound& b, bool& compare_it, bool& refuse, size_t i, int kind)
{
    compare_it = refuse = false;
    const Array& a = c.arrays[i];
    switch (kind)
    {
    case 0: // type
    {
        const sdp_MemType t = TYPES[mc::choose(6, "type")];
        if (t == a.type) mc::infeasible();
        compare_it = rebind(c, b, i, t, a.shape, L_C) && c.across_types;
        return a.name + " of type " + tname(t);
    }
    case 1: // layout
    {
        static const char* N[] = {"", " with gaps in memory", " transposed in memory", " in reverse in memory", " in steps of one and a half elements in memory"};
        const Layout lay = mc::pick({L_PAD, L_F, L_REV, L_ODD}, "layout");
        if (lay == L_F && a.shape.size() < 2) mc::infeasible();
        if (lay == L_ODD && tsize(a.type) < 2) mc::infeasible();
        compare_it = rebind(c, b, i, a.type, a.shape, lay);
        return a.name + N[lay];
    }
    case 2: // one dimension larger, smaller, empty
    {
        const int d = mc::choose((int) a.shape.size(), "dim");
        Shape s = a.shape;
        const int how = mc::choose(5, "size");
        s[d] = how == 0 ? s[d] - 1 : how == 1 ? s[d] + 1 : how == 2 ? 0 : how == 3 ? 1 : s[d] * 2;
        if (s == a.shape) mc::infeasible();
        rebind(c, b, i, a.type, s, L_C);
        return a.name + " of shape " + shape_str(s);
    }
    case 3: // number of dimensions
    {
        Shape s = a.shape; const int how = mc::choose(5, "dims");
        if (how == 0) { int64_t n = 1; for (auto x : s) n *= x; s = {n}; }
        else if (how == 1) s.insert(s.begin(), 1);
        else if (how == 2) s.push_back(1);
        else if (how == 3) { if (s.size() < 2) mc::infeasible(); s.pop_back(); }
        else { if (s.size() < 2) mc::infeasible(); s.erase(s.begin()); }
        if (s == a.shape) mc::infeasible();
        rebind(c, b, i, a.type, s, L_C);
        return a.name + " of shape " + shape_str(s);
    }
    case 4: // on a GPU
    {
        b.no_access = mmap(0, 1 << 16, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        sdp_Error s0 = SDP_SUCCESS;
        sdp_mem_free(b.arr[i].mem);
        b.mem[i] = b.arr[i].mem = sdp_mem_create_wrapper(b.no_access, a.type, SDP_MEM_GPU, (int) a.shape.size(), a.shape.data(), b.arr[i].stride.data(), &s0);
        refuse = true;
        return a.name + " on a GPU";
    }
    case 5: // read-only
        sdp_mem_set_read_only(b.mem[i], 1);
        if (a.role == api::IN) compare_it = true; else if (a.role != api::SCRATCH) refuse = true;
        return a.name + " read-only";
    default: // a value which is not usable
    {
        const int n = (int) std::min<int64_t>(3, b.arr[i].size());
        const int64_t k = mc::choose(n, "element") * (b.arr[i].size() - 1) / std::max(1, n - 1);
        static const double BADF[] = {NAN, INFINITY, -INFINITY, 1e30, -1e30, 0}, BADI[] = {-1, 2147483647., -2147483648., 1000, -1000, 0};
        const int v = mc::choose(6, "value");
        const double x = a.type == SDP_MEM_INT ? BADI[v] : BADF[v];
        b.arr[i].set(k, x);
        return a.name + mc::strf("[%d] = %g", (int) k, x);
    }
    }
}

static void e02()
{
    auto& T = api::table();
    const int ci = mc::choose((int) T.size(), "call");
    const Call& c = T[ci];
    const int na = (int) c.arrays.size(), ns = (int) c.scalars.size();
    const int which = mc::choose(na + ns + 1, "argument");
    Bound b; bind(c, b);
    bool cmp = false, refuse = false; std::string what;
    int kind = -1;
    if (which == 0) { what = "plain arrays"; cmp = true; }
    else if (which <= na)
    {
        kind = mc::choose(7, "deviation");
        what = deviate(c, b, cmp, refuse, which - 1, kind);
        if (!mc::quick() && kind < 6)
        {
            // a second deviation of a later argument
            const int w2 = which + mc::choose(na - which + 1, "second argument");
            if (w2 != which)
            {
                bool c2 = false, r2 = false;
                what += " and " + deviate(c, b, c2, r2, w2 - 1, mc::choose(6, "second deviation"));
                cmp = cmp && c2; refuse = refuse || r2;
            }
        }
    }
    else
    {
        const api::Scalar& s = c.scalars[which - na - 1];
        if (s.odd.empty()) mc::infeasible();
        b.num[which - na - 1] = mc::pick(s.odd, "value");
        what = s.name + mc::strf(" = %g", b.num[which - na - 1]);
        // together with a deviation of an array in the thorough tier
        if (!mc::quick() && na && c.name != "function_example_a" && mc::flip("and array"))
        {
            bool c2, r2; const int w2 = mc::choose(na, "second argument");
            what += " and " + deviate(c, b, c2, r2, w2, mc::choose(6, "second deviation"));
            // (with such a value the array may not be used at all)
        }
    }
    if (cmp || which == 0) baseline(ci);
    // (the example function does not check its sizes: a known finding, one for all sizes)
    if (c.name == "function_example_a" || (c.name.find("vector_add") == 0 && what.find(" in memory") != std::string::npos)) mc::context("%s", c.name.c_str());
    else mc::context("%s: %s", c.name.c_str(), kind == 6 ? "unusable value" : what.c_str());
    auto was = snapshot(b);
    sdp_Error st = SDP_SUCCESS; api::Nums ret;
    mc::calls();
    c.run(b.mem, b.num, &st, ret);
    mc::state(mc::fnv(what.data(), what.size(), mc::fnv(&st, sizeof st, ci)));
    // a value for which the work fails part of the way through may leave outputs incomplete
    if (st == SDP_ERR_RUNTIME && kind == 6) untouched(c, b, was, false, ("refused " + what).c_str());
    else if (st) untouched(c, b, was, true, ("refused " + what).c_str());
    else
    {
        MC_CHECK(!refuse, "not-refused:" + c.name, "%s: accepted %s", c.name.c_str(), what.c_str());
        untouched(c, b, was, false, what.c_str());
        if (cmp) compare(c, ci, b, ret, what.c_str());
    }
    MC_CHECK(!(which == 0 && st), "valid-call:" + c.name, "%s: a valid call failed with status %d", c.name.c_str(), (int) st);
}

// ---------------------------------------------------------------- E01 -----
struct Maker { const char* name; std::function<void*(sdp_Error*)> make; };

static void e01()
{
    static const sdp_Error CODES[] = {SDP_ERR_RUNTIME, SDP_ERR_INVALID_ARGUMENT, SDP_ERR_DATA_TYPE, SDP_ERR_MEM_ALLOC_FAILURE, SDP_ERR_MEM_COPY_FAILURE, SDP_ERR_MEM_LOCATION, (sdp_Error) 999};
    auto& T = api::table();
    const int ci = mc::choose((int) T.size() + 1, "call");
    const sdp_Error code = mc::pick(std::vector<sdp_Error>(CODES, CODES + 7), "status");
    if (ci < (int) T.size())
    {
        const Call& c = T[ci];
        Bound b; bind(c, b);
        // valid arguments, or one argument which would be refused: the first error must be kept
        const int na = (int) c.arrays.size(), which = mc::choose(na + 1, "deviating");
        bool x, y; std::string what = "valid arguments";
        if (which) what = deviate(c, b, x, y, which - 1, mc::choose(6, "deviation"));
        mc::context("%s: status set before the call", c.name.c_str());
        auto was = snapshot(b);
        sdp_Error st = code; api::Nums ret;
        mc::calls();
        c.run(b.mem, b.num, &st, ret);
        MC_CHECK(st == code, "status-changed:" + c.name, "%s: status %d became %d", c.name.c_str(), (int) code, (int) st);
        untouched(c, b, was, true, "status set before the call");
        mc::state(mc::fnv(what.data(), what.size(), mc::fnv(&code, sizeof code, ci)));
        return;
    }
    // creators return nothing, and the functions that use what they did not create do nothing either
    static Arr* A = new Arr(SDP_MEM_COMPLEX_DOUBLE, {8, 8}); static Arr* D = new Arr(SDP_MEM_DOUBLE, {8, 3}); static Arr* I = new Arr(SDP_MEM_INT, {8});
    static Arr* V = new Arr(SDP_MEM_COMPLEX_DOUBLE, {8, 2});
    A->fill(3); D->fill(2); I->fill(1); V->fill(5);
    const int64_t sh[] = {2, 3};
    sdp_Error st = code;
    const int k = mc::choose(16, "creator");
    static const char* N[] = {"mem_create", "mem_create_wrapper", "mem_create_alias", "mem_create_copy", "mem_create_wrapper_for_slice", "fft_create", "swiftly_create",
        "gridder_direct_create", "gridder_wtower_uvw_create", "function_example_a_create_plan", "mem_convert_precision", "determine_max_w_tower_height", "pswf_values", "fft_norm chain", "handles not created", "refused mem_create"};
    mc::context("%s: status set before the call", N[k]);
    mc::calls();
    double z[6]; void* made = nullptr;
    switch (k)
    {
    case 0: { sdp_Mem* m = sdp_mem_create(SDP_MEM_DOUBLE, SDP_MEM_CPU, 2, sh, &st); sdp_mem_clear_contents(m, &st); sdp_mem_free(m); break; }
    case 1: { sdp_Mem* m = sdp_mem_create_wrapper(z, SDP_MEM_DOUBLE, SDP_MEM_CPU, 2, sh, 0, &st); sdp_mem_free(m); break; }
    case 2: { sdp_Mem* m = sdp_mem_create_alias(A->mem); sdp_mem_free(m); break; }
    case 3: { sdp_Mem* m = sdp_mem_create_copy(A->mem, SDP_MEM_CPU, &st); sdp_mem_free(m); break; }
    case 4: { const int64_t off[] = {0, 0}; sdp_Mem* m = sdp_mem_create_wrapper_for_slice(A->mem, off, 2, sh, &st); sdp_mem_free(m); break; }
    case 5: { sdp_Fft* f = sdp_fft_create(A->mem, A->mem, 2, 1, &st); made = f; sdp_fft_exec(f, A->mem, A->mem, &st); sdp_fft_exec_shift(f, A->mem, 1, &st); sdp_fft_free(f); break; }
    case 6:
    {
        sdp_SwiFTly* s = sdp_swiftly_create(32, 16, 8, 2.0, &st); made = s;
        sdp_swiftly_prepare_facet(s, A->mem, A->mem, 0, &st); sdp_swiftly_extract_from_facet(s, A->mem, A->mem, 0, &st); sdp_swiftly_add_to_subgrid(s, A->mem, A->mem, 0, &st);
        sdp_swiftly_add_to_subgrid_2d(s, A->mem, A->mem, 0, 0, &st); sdp_swiftly_finish_subgrid(s, A->mem, A->mem, 0, &st); sdp_swiftly_finish_subgrid_inplace(s, A->mem, 0, &st);
        sdp_swiftly_finish_subgrid_inplace_2d(s, A->mem, 0, 0, &st); sdp_swiftly_prepare_subgrid_inplace(s, A->mem, 0, &st); sdp_swiftly_prepare_subgrid_inplace_2d(s, A->mem, 0, 0, &st);
        sdp_swiftly_extract_from_subgrid(s, A->mem, A->mem, 0, &st); sdp_swiftly_extract_from_subgrid_2d(s, A->mem, A->mem, 0, 0, &st); sdp_swiftly_add_to_facet(s, A->mem, A->mem, 0, &st);
        sdp_swiftly_finish_facet(s, A->mem, A->mem, 0, &st); sdp_swiftly_free(s); break;
    }
    case 7:
    {
        sdp_GridderDirect* g = sdp_gridder_direct_create(32, 8, 0.25, 16, 0, 0, 8, &st); made = g;
        sdp_gridder_direct_grid(g, V->mem, D->mem, I->mem, I->mem, 1, 1, A->mem, 0, 0, 0, &st); sdp_gridder_direct_degrid(g, A->mem, 0, 0, 0, 1, 1, D->mem, I->mem, I->mem, V->mem, &st);
        sdp_gridder_direct_grid_correct(g, A->mem, 0, 0, 0, &st); sdp_gridder_direct_degrid_correct(g, A->mem, 0, 0, 0, &st); sdp_gridder_direct_free(g); break;
    }
    case 8:
    {
        sdp_GridderWtowerUVW* g = sdp_gridder_wtower_uvw_create(32, 8, 0.25, 16, 0, 0, 4, 16, 4, 16, &st); made = g;
        sdp_gridder_wtower_uvw_grid(g, V->mem, D->mem, I->mem, I->mem, 1, 1, A->mem, 0, 0, 0, 0, 8, &st); sdp_gridder_wtower_uvw_degrid(g, A->mem, 0, 0, 0, 1, 1, D->mem, I->mem, I->mem, V->mem, 0, 8, &st);
        sdp_gridder_wtower_uvw_grid_correct(g, A->mem, 0, 0, 0, &st); sdp_gridder_wtower_uvw_degrid_correct(g, A->mem, 0, 0, 0, &st); sdp_gridder_wtower_uvw_free(g); break;
    }
    case 9: { sdp_FunctionExampleA* p = sdp_function_example_a_create_plan(2, 3, 1, &st); made = p; sdp_function_example_a_exec(p, A->mem, &st); sdp_function_example_a_free_plan(p); break; }
    case 10: { sdp_Mem* m = sdp_mem_convert_precision(A->mem, SDP_MEM_COMPLEX_FLOAT, &st); if (m != A->mem) sdp_mem_free(m); break; }
    case 11: sdp_gridder_determine_max_w_tower_height(32, 16, 0.1, 100, 0, 0, 4, 16, 4, 16, 0.05, 0.5, 3, 1e-3, &st); break;
    case 12: { sdp_Pswf* p = sdp_pswf_create(0, 9.5); sdp_Error s0 = SDP_SUCCESS; sdp_pswf_generate(p, 0, 8, 0, &s0); sdp_pswf_values(p, SDP_MEM_GPU, &st); sdp_pswf_coeff(p, SDP_MEM_GPU, &st); sdp_pswf_free(p); break; }
    case 14:
    {
        // handles which an earlier failure did not create
        const int64_t off[] = {0, 0};
        sdp_Mem* a = sdp_mem_create_wrapper_for_slice(A->mem, off, 7, sh, &st); sdp_Mem* b = sdp_mem_create_copy(a, SDP_MEM_CPU, &st); sdp_Mem* c = sdp_mem_create_alias(a);
        sdp_Mem* d = sdp_mem_create_wrapper_for_slice(a, off, 2, sh, &st); sdp_Mem* e = sdp_mem_convert_precision(a, SDP_MEM_FLOAT, &st);
        sdp_mem_copy_contents(A->mem, a, 0, 0, 4, &st); sdp_mem_copy_contents(a, A->mem, 0, 0, 4, &st); sdp_mem_clear_contents(a, &st); sdp_mem_clear_portion(a, 0, 1, &st);
        sdp_mem_set_value(a, 1, &st); sdp_mem_scale_real(a, 2, &st); sdp_mem_random_fill(a, &st); sdp_mem_set_read_only(a, 1); sdp_mem_ref_inc(a); sdp_mem_gpu_buffer(a, &st); sdp_mem_data(a);
        sdp_mem_check_writeable(a, &st); sdp_mem_check_c_contiguity(a, &st); sdp_mem_check_location(a, SDP_MEM_GPU, &st); sdp_mem_check_num_dims(a, 2, &st); sdp_mem_check_dim_size(a, 0, 3, &st);
        sdp_mem_check_shape(a, 2, sh, &st); sdp_mem_check_shape_dim(a, 0, 3, &st); sdp_mem_check_same_shape(A->mem, 0, D->mem, 1, &st); sdp_mem_check_same_shape(a, 0, A->mem, 1, &st); sdp_mem_check_type(a, SDP_MEM_INT, &st);
        sdp_mem_free(a); sdp_mem_free(b); sdp_mem_free(c); sdp_mem_free(d); sdp_mem_free(e);
        break;
    }
    case 15: { sdp_Mem* m = sdp_mem_create((sdp_MemType) 77, SDP_MEM_CPU, 2, sh, &st); sdp_mem_free(m); m = sdp_mem_create(SDP_MEM_DOUBLE, SDP_MEM_GPU, 2, sh, &st); sdp_mem_free(m); break; }
    case 13: sdp_fft_norm(A->mem, &st); sdp_fft_phase(A->mem, &st); sdp_gridder_shift_subgrids(A->mem, &st); sdp_gridder_count_nonzero_pixels(A->mem, &st); break;
    }
    mc::state(k * 8 + code % 7);
    (void) made;
    MC_CHECK(st == code, std::string("status-changed:") + N[k], "%s: status %d became %d", N[k], (int) code, (int) st);
    for (auto& v : A->all()) MC_CHECK(v == cd(3, 0), std::string("written:") + N[k], "%s: an array was modified", N[k]);
    for (auto& v : V->all()) MC_CHECK(v == cd(5, 0), std::string("written:") + N[k], "%s: an array was modified", N[k]);
}

// ---------------------------------------------------------------- A01 -----
// Run f twice: the first time fills caches which are kept on purpose, the second must release all it allocates.
static void balanced(const std::string& key, const std::string& what, const std::function<void()>& f)
{
    f();
    track::start();
    f();
    track::stop();
    mc::state(mc::fnv(&track::total, sizeof track::total, mc::fnv(what.data(), what.size())));
    MC_CHECK(track::live == 0, "leak:" + key, "%s: %s: %ld of %ld allocations (%ld bytes) were not released", key.c_str(), what.c_str(), track::live, track::total, track::bytes);
}

static void a01()
{
    auto& T = api::table();
    const int nt = (int) T.size();
    const int ci = mc::choose(nt + 2, "call");
    if (ci < nt)
    {
        // the deviations of E02, with and without an earlier error
        const Call& c = T[ci];
        const int na = (int) c.arrays.size(), ns = (int) c.scalars.size();
        const int which = mc::choose(na + ns + 1, "argument");
        if (c.name == "function_example_a" && which) { mc::choose(1); mc::infeasible(); }   // overruns its memory (known finding of E02)
        const int early = mc::choose(2, "earlier error");
        if (which > na && c.scalars[which - na - 1].odd.empty()) mc::infeasible();
        int kind = 0, val = 0;
        if (which && which <= na) kind = mc::choose(7, "deviation");
        if (which > na) val = mc::choose((int) c.scalars[which - na - 1].odd.size(), "value");
        // the choices within deviate() must be the same in both runs
        std::string what; bool x, y; int mark = 0;
        Bound first; bind(c, first);
        if (which && which <= na) what = deviate(c, first, x, y, which - 1, kind);
        if (c.name.find("vector_add") == 0 && kind == 1) mc::infeasible(); // overruns its memory too (known finding of E02)
        (void) mark;
        mc::context("%s: %s", c.name.c_str(), which > na ? c.scalars[which - na - 1].name.c_str() : kind == 6 ? "unusable value" : what.c_str());
        if (which > na) what = c.scalars[which - na - 1].name + mc::strf(" = %g", c.scalars[which - na - 1].odd[val]);
        if (early) what += " after an earlier error";
        std::vector<std::string> bytes = snapshot(first);
        balanced(c.name, what, [&]
        {
            api::Mems mem; api::Nums num = first.num, ret;
            std::vector<std::vector<char>> data(na);
            std::vector<sdp_Mem*> own;
            sdp_Error s0 = SDP_SUCCESS;
            for (int i = 0; i < na; ++i)
            {
                const Arr& a = first.arr[i];
                const std::string& b = bytes[i];
                // a copy of the array, of which the library sees a new handle
                void* base = (void*) sdp_mem_data_const(a.mem);
                sdp_Mem* h = sdp_mem_create_wrapper(base, sdp_mem_type(a.mem), sdp_mem_location(a.mem), sdp_mem_num_dims(a.mem),
                    a.shape.data(), a.stride.data(), &s0);
                if (sdp_mem_is_read_only(a.mem)) sdp_mem_set_read_only(h, 1);
                (void) b;
                mem.push_back(h);
            }
            if (which > na) num[which - na - 1] = c.scalars[which - na - 1].odd[val];
            sdp_Error st = early ? SDP_ERR_RUNTIME : SDP_SUCCESS;
            mc::calls();
            c.run(mem, num, &st, ret);
            for (auto m : mem) sdp_mem_free(m);
        });
        return;
    }
    if (ci == nt)
    {
        // creators, freed at once; valid and refused parameters, and after an earlier error
        static const char* N[] = {"fft_create", "swiftly_create", "gridder_direct_create", "gridder_wtower_uvw_create", "function_example_a_create_plan", "pswf_create", "max_w_tower_height", "pswf on demand",
            "timer_create", "timers_create", "sky_coord_create", "gridder_uvw_es_fft_create_plan"};
        const int k = mc::choose(12, "creator"), v = mc::choose(6, "parameters"), early = mc::choose(2, "earlier error");
        mc::context("%s", N[k]);
        Arr A(SDP_MEM_COMPLEX_DOUBLE, {8, 8}), F(SDP_MEM_COMPLEX_FLOAT, {8, 8});
        balanced(N[k], mc::strf("parameters %d%s", v, early ? " after an earlier error" : ""), [&]
        {
            sdp_Error st = early ? SDP_ERR_RUNTIME : SDP_SUCCESS;
            mc::calls();
            switch (k)
            {
            case 0: sdp_fft_free(sdp_fft_create(A.mem, v == 1 ? F.mem : A.mem, v == 2 ? 0 : v == 3 ? 3 : 2, v == 4, &st)); break;
            case 1: sdp_swiftly_free(sdp_swiftly_create(v == 1 ? 33 : 32, v == 2 ? 15 : v == 3 ? 64 : 16, v == 4 ? 7 : v == 5 ? 0 : 8, 2.0, &st)); break;
            case 2: sdp_gridder_direct_free(sdp_gridder_direct_create(v == 1 ? 0 : 32, v == 2 ? 0 : 8, 0.25, 16, 0, 0, v == 3 ? 0 : 8, &st)); break;
            case 3: sdp_gridder_wtower_uvw_free(sdp_gridder_wtower_uvw_create(v == 1 ? 0 : 32, v == 2 ? 0 : 8, 0.25, 16, 0, 0, v == 3 ? 3 : 4, 16, v == 4 ? 3 : 4, 16, &st)); break;
            case 4: sdp_function_example_a_free_plan(sdp_function_example_a_create_plan(v == 1 ? 10 : v == 2 ? 0 : 2, 3, 1, &st)); break;
            case 5: sdp_pswf_free(sdp_pswf_create(v, v * 3.0)); break;
            case 6:
                if (v < 2) sdp_gridder_determine_max_w_tower_height(v ? 64 : 32, 16, 0.1, 100, 0, 0, 4, 16, 4, 16, 0.05, 0.5, 3, 1e-3, &st);
                else sdp_gridder_determine_w_step(0.1, 0.05, 0, 0, 0);
                break;
            case 8:
            {
                sdp_Timer* t = sdp_timer_create((sdp_TimerType) (v % 3));
                if (v > 2) { sdp_timer_start(t); sdp_timer_pause(t); sdp_timer_elapsed(t); }
                sdp_timer_free(t);
                break;
            }
            case 9:
            {
                sdp_Timers* t = sdp_timers_create("all", SDP_TIMER_NATIVE, v == 1 ? 3 : 1);
                if (v > 1)
                {
                    sdp_TimerNode* set = sdp_timers_create_set(t, "set", v, 0);
                    sdp_timers_push(t, "slot", 0, set);
                    sdp_timers_push(t, "inner", 0, 0);
                    if (v > 3) { sdp_timers_pop(t, 0, 0); sdp_timers_push(t, "inner", 0, 0); sdp_timers_pop_push(t, "other", 0, 0); }
                    if (v < 5) sdp_timers_pop(t, 0, 0);
                    sdp_timers_create_set(t, "set", v + 2, 0);
                }
                sdp_timers_free(t);
                break;
            }
            case 10:
            {
                sdp_SkyCoord* x = sdp_sky_coord_create(v == 1 ? "" : v == 2 ? "a rather long name of a type of coordinates" : "icrs", 1, 2, 3);
                sdp_sky_coord_set_epoch(x, v);
                sdp_sky_coord_free(x);
                break;
            }
            case 11:
            {
                // (there is no GPU: creation stops at the first array on it)
                static Arr uvw(SDP_MEM_DOUBLE, {5, 3}), fr(SDP_MEM_DOUBLE, {2}), vis(SDP_MEM_COMPLEX_DOUBLE, {5, 2}), w(SDP_MEM_DOUBLE, {5, 2}), im(SDP_MEM_DOUBLE, {12, 12});
                sdp_gridder_uvw_es_fft_free_plan(sdp_gridder_uvw_es_fft_create_plan(uvw.mem, fr.mem, vis.mem, w.mem, im.mem, v == 1 ? 0 : 1e-3, 1e-3,
                    v == 2 ? 0 : 1e-5, v == 3 ? 0 : 0.5, v == 3 ? 0 : 20, v & 1, &st));
                break;
            }
            default:
            {
                sdp_Pswf* p = sdp_pswf_create(0, 9.5);
                if (v) sdp_pswf_generate(p, 0, 2 * v, v & 1, &st);
                if (v > 2) sdp_pswf_generate(p, 0, 3 * v, v & 1, &st);
                sdp_pswf_values(p, v & 1 ? SDP_MEM_GPU : SDP_MEM_CPU, &st);
                sdp_pswf_coeff(p, v & 2 ? SDP_MEM_GPU : SDP_MEM_CPU, &st);
                sdp_pswf_free(p);
            }
            }
        });
        return;
    }
    // handles: every sequence of operations, after which each handle is freed as often as it was handed out
    const int depth = mc::quick() ? 5 : 6;
    std::vector<int> ops; std::string what;
    static const char* O[] = {"create", "wrapper", "alias", "copy", "slice", "convert", "refused", "add reference", "free"};
    for (int i = 0; i < depth; ++i)
    {
        const int o = mc::choose(10, "operation");
        if (o == 9) break;
        ops.push_back(o); what += std::string(i ? ", " : "") + O[o];
    }
    mc::context("handles");
    balanced("handles", what, [&]
    {
        std::vector<sdp_Mem*> h;
        static double buf[64];
        const int64_t sh[] = {2, 3}, off[] = {0, 1}, ssh[] = {2, 2}, bad[] = {5, 5};
        for (int o : ops)
        {
            sdp_Error st = SDP_SUCCESS;
            sdp_Mem* last = h.empty() ? nullptr : h.back();
            mc::calls();
            switch (o)
            {
            case 0: h.push_back(sdp_mem_create(SDP_MEM_DOUBLE, SDP_MEM_CPU, 2, sh, &st)); break;
            case 1: h.push_back(sdp_mem_create_wrapper(buf, SDP_MEM_DOUBLE, SDP_MEM_CPU, 2, sh, 0, &st)); break;
            case 2: if (last) h.push_back(sdp_mem_create_alias(last)); break;
            case 3: if (last) h.push_back(sdp_mem_create_copy(last, SDP_MEM_CPU, &st)); break;
            case 4: if (last) { sdp_Mem* m = sdp_mem_create_wrapper_for_slice(last, off, 2, ssh, &st); if (m) h.push_back(m); } break;
            case 5: if (last) { sdp_Mem* m = sdp_mem_convert_precision(last, h.size() & 1 ? SDP_MEM_FLOAT : SDP_MEM_DOUBLE, &st); if (m) h.push_back(m); } break;
            case 6:
            {
                sdp_mem_free(sdp_mem_create(SDP_MEM_DOUBLE, SDP_MEM_GPU, 2, sh, &st)); st = SDP_SUCCESS;
                sdp_mem_free(sdp_mem_create((sdp_MemType) 77, SDP_MEM_CPU, 2, sh, &st)); st = SDP_SUCCESS;
                if (last) { sdp_mem_free(sdp_mem_create_copy(last, SDP_MEM_GPU, &st)); st = SDP_SUCCESS; sdp_mem_free(sdp_mem_create_wrapper_for_slice(last, off, 2, bad, &st)); }
                break;
            }
            case 7: if (last) { sdp_mem_ref_inc(last); h.push_back(last); } break;
            default: if (last) { sdp_mem_free(last); h.pop_back(); }
            }
        }
        while (!h.empty()) { sdp_mem_free(h.back()); h.pop_back(); }
    });
}

// ---------------------------------------------------------------- A02 -----
// The k-th request for the data of an array fails (the requests are calls of calloc with an element size of one).
namespace shortage { static long at = -1, seen = 0; static bool on = false, failed = false; }
extern "C" void* __real_calloc(size_t n, size_t size);
extern "C" void* __wrap_calloc(size_t n, size_t size)
{
    if (shortage::on && !api::paused() && size == 1 && shortage::seen++ == shortage::at) { shortage::failed = true; return nullptr; }
    return __real_calloc(n, size);
}

// f(status): runs with the k-th request failing for every k; returns true when it counts as having worked
static void short_of_memory(const std::string& key, const std::function<void(sdp_Error*)>& f, const std::function<void(int phase, sdp_Error st)>& after)
{
    sdp_Error st = SDP_SUCCESS;
    { const time_t t = time(nullptr); gmtime(&t); localtime(&t); } // used by log messages; the C library keeps its tables
    f(&st);                             // fills caches which are kept
    st = SDP_SUCCESS;
    shortage::seen = 0; shortage::at = -1; shortage::on = true;
    f(&st);
    shortage::on = false;
    const long n = shortage::seen;
    mc::count("allocation requests", n);
    if (!n || st) mc::infeasible();
    const int k = mc::choose((int) n, "failing request");
    st = SDP_SUCCESS;
    shortage::seen = 0; shortage::at = k; shortage::failed = false; shortage::on = true;
    mc::context("%s: request %d of %ld for memory fails", key.c_str(), k, n);
    mc::calls();
    track::start();
    f(&st);
    track::stop();
    shortage::on = false;
    MC_CHECK(shortage::failed, "harness:" + key, "%s: the requests for memory differ between runs", key.c_str());
    mc::state(mc::fnv(&k, sizeof k, mc::fnv(key.data(), key.size())));
    MC_CHECK(track::live == 0, "shortage-leak:" + key, "%s: request %d of %ld for memory fails: %ld allocations (%ld bytes) were not released", key.c_str(), k, n, track::live, track::bytes);
    after(0, st);
    st = SDP_SUCCESS;
    f(&st);
    after(1, st);
}

static void a02()
{
    auto& T = api::table();
    const int nt = (int) T.size();
    const int ci = mc::choose(nt + 1, "call");
    if (ci < nt)
    {
        const Call& c = T[ci];
        if (c.name.rfind("function_example_a", 0) == 0) mc::infeasible();
        Base& base = baseline(ci);
        std::unique_ptr<Bound> b; std::vector<std::string> was; api::Nums ret;
        short_of_memory(c.name, [&](sdp_Error* st)
        {
            track::stop();
            const bool tr = shortage::on && shortage::at >= 0, sh = shortage::on;
            shortage::on = false;
            b.reset(new Bound); bind(c, *b); was = snapshot(*b); ret.clear(); ret.reserve(16);
            shortage::on = sh;
            if (tr) track::start();
            c.run(b->mem, b->num, st, ret);
        },
        [&](int phase, sdp_Error st)
        {
            untouched(c, *b, was, false, "no memory");
            if (phase == 0 && st) return;
            MC_CHECK(!st, "after-shortage:" + c.name, "%s: still fails (status %d) when memory is available again", c.name.c_str(), (int) st);
            for (size_t i = 0; i < c.arrays.size(); ++i) if (c.arrays[i].role == api::OUT || c.arrays[i].role == api::INOUT)
            {
                const double d = max_diff(b->arr[i].all(), base.vals[i]), tol = std::max(c.tol, 1e-9) * 20 * (1 + base.scale[i]);
                MC_CHECK(d <= tol, (phase ? "after-shortage:" : "shortage-unreported:") + c.name, "%s: %s: %s differs by %g", c.name.c_str(),
                    phase ? "run again after a shortage of memory" : "a request for memory failed, no error was reported", c.arrays[i].name.c_str(), d);
            }
        });
        return;
    }
    static const char* N[] = {"fft_create", "swiftly_create", "gridder_direct_create", "gridder_wtower_uvw_create", "pswf", "max_w_tower_height", "create_copy", "convert_precision", "create"};
    const int k = mc::choose(9, "creator");
    Arr A(SDP_MEM_COMPLEX_DOUBLE, {8, 8}), R(SDP_MEM_DOUBLE, {3, 2});
    fill_hash(R);
    double val = 0;
    short_of_memory(N[k], [&](sdp_Error* st)
    {
        val = 0;
        const int64_t sh[] = {2, 3};
        switch (k)
        {
        case 0: sdp_fft_free(sdp_fft_create(A.mem, A.mem, 2, 1, st)); break;
        case 1: sdp_swiftly_free(sdp_swiftly_create(32, 16, 8, 2.0, st)); break;
        case 2: sdp_gridder_direct_free(sdp_gridder_direct_create(32, 8, 0.25, 16, 0, 0, 8, st)); break;
        case 3: sdp_gridder_wtower_uvw_free(sdp_gridder_wtower_uvw_create(32, 8, 0.25, 16, 0, 0, 4, 16, 4, 16, st)); break;
        case 4:
        {
            sdp_Pswf* p = sdp_pswf_create(0, 9.5);
            sdp_pswf_generate(p, 0, 8, 1, st);
            const sdp_Mem* v = *st ? nullptr : sdp_pswf_values(p, SDP_MEM_CPU, st);
            if (!*st) val = ((const double*) sdp_mem_data_const(v))[3];
            if (!*st) v = sdp_pswf_coeff(p, SDP_MEM_CPU, st);
            if (!*st) val += sdp_mem_num_elements(v);
            sdp_pswf_free(p);
            break;
        }
        case 5: val = sdp_gridder_determine_max_w_tower_height(32, 16, 0.1, 100, 0, 0, 4, 16, 4, 16, 0.05, 0.5, 3, 1e-3, st); break;
        case 6: { sdp_Mem* m = sdp_mem_create_copy(R.mem, SDP_MEM_CPU, st); if (!*st) val = ((double*) sdp_mem_data(m))[5]; sdp_mem_free(m); break; }
        case 7: { sdp_Mem* m = sdp_mem_convert_precision(R.mem, SDP_MEM_FLOAT, st); if (!*st) val = ((float*) sdp_mem_data(m))[5]; sdp_mem_free(m); break; }
        case 8:
        {
            sdp_Mem* m = sdp_mem_create(SDP_MEM_DOUBLE, SDP_MEM_CPU, 2, sh, st);
            // an array without memory has no elements, and nothing can be written to it
            if (*st == SDP_ERR_MEM_ALLOC_FAILURE)
            {
                sdp_Error s2 = SDP_SUCCESS;
                sdp_mem_clear_contents(m, &s2); s2 = SDP_SUCCESS;
                sdp_mem_set_value(m, 1, &s2); s2 = SDP_SUCCESS;
                sdp_mem_scale_real(m, 2.0, &s2); s2 = SDP_SUCCESS;
                sdp_mem_copy_contents(m, m, 0, 0, 1, &s2); s2 = SDP_SUCCESS;
                sdp_mem_free(sdp_mem_create_copy(m, SDP_MEM_CPU, &s2));
                sdp_mem_free(sdp_mem_create_alias(m));
                s2 = SDP_SUCCESS;
                sdp_mem_free(sdp_mem_convert_precision(m, SDP_MEM_FLOAT, &s2));
            }
            else if (*st == SDP_SUCCESS) ((double*) sdp_mem_data(m))[5] = val = 1;
            sdp_mem_free(m);
        }
        }
    },
    [&](int phase, sdp_Error st)
    {
        if (phase == 0) { MC_CHECK(st != SDP_SUCCESS, std::string("shortage-unreported:") + N[k], "%s: a request for memory failed, no error was reported", N[k]); return; }
        MC_CHECK(!st, std::string("after-shortage:") + N[k], "%s: still fails (status %d) when memory is available again", N[k], (int) st);
        MC_CHECK(val == val, std::string("after-shortage:") + N[k], "%s: gives no number", N[k]);
    });
}

static void body()
{
    if (mc::prop("E01")) e01();
    if (mc::prop("A02")) a02();
    if (mc::prop("E02")) e02();
    if (mc::prop("A01")) a01();
}

MC_MAIN(body)
