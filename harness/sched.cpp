// X01: the result of a call does not depend on the number of threads or their schedule, and no access races.
// X02: calls made at the same time from different threads on their own arrays do not disturb each other.
#include "harness/api_table.hpp"
#include "harness/sched.hpp"

using api::Call;
using api::Array;
using api::Role;

static std::vector<Call>& cases()
{
    static std::vector<Call> T;
    if (!T.empty()) return T;
    for (auto& c : api::table())
    {
        if (c.name.find("mem_random_fill") != std::string::npos) continue;
        if (mc::quick() && mc::prop("X01") && c.name.find("wstack") == 0) continue;   // the cases below are better
        if (mc::quick() && mc::prop("X02") && c.name.find("/single") != std::string::npos) continue;
        T.push_back(c);
    }
    if (mc::prop("X02"))
    {
        // messages, as every refused call writes them
        api::Call c; c.name = "log_message";
        c.run = [](const api::Mems&, const api::Nums&, sdp_Error*, api::Nums& ret)
        {
            char text[400] = ""; FILE* f = fmemopen(text, sizeof text, "w");
            sdp_log_message(SDP_LOG_LEVEL_CRITICAL, f, "function", "file", 1, "%d %s", 7, "text");
            fclose(f);
            int y = 0, d = 0; char s[100] = "";
            if (sscanf(text, "1|%d-%*d-%*dT%*d:%*d:%*d.%*dZ|CRITICAL||function|file#1|| %d %99s", &y, &d, s) != 3) y = -1;
            ret.push_back(y > 1969); ret.push_back(d); ret.push_back(strlen(s));
        };
        T.push_back(c);
        return T;
    }
    using namespace api;
    // larger cases, where work is shared out in several pieces
    for (int k = 0; k < 2; ++k)
    {
        const int rows = 1600;
        Call c; c.name = k ? "wtower_degrid (1600 rows)" : "wtower_grid (1600 rows)"; c.tol = 1e-9;
        c.arrays = {{"vis", k ? OUT : IN, C16, {rows, 1}, k ? num(0) : cdy(6)}, {"uvw", IN, F8, {rows, 3}, coords(5, 40, 20)}, {"start", IN, I4, {rows}, num(0)}, {"end", IN, I4, {rows}, num(1)},
            {"image", k ? IN : INOUT, C16, {16, 16}, dy(8)}};
        c.run = [k](const Mems& m, const Nums&, sdp_Error* st, Nums&)
        {
            sdp_Error s0 = SDP_SUCCESS;
            sdp_GridderWtowerUVW* p = sdp_gridder_wtower_uvw_create(32, 16, 0.125, 16, 0.1, -0.1, 2, 8, 2, 8, &s0);
            if (k == 0) sdp_gridder_wtower_uvw_grid(p, m[0], m[1], m[2], m[3], C0, 1, m[4], 0, 0, 0, 0, 1600, st);
            else sdp_gridder_wtower_uvw_degrid(p, m[4], 0, 0, 0, C0, 1, m[1], m[2], m[3], m[0], 0, 1600, st);
            sdp_gridder_wtower_uvw_free(p);
        };
        T.push_back(c);
    }
    const Fill inner = [](int64_t i, const Shape& s) { const int64_t y = i / s[1], x = i % s[1]; return cd(y < 4 || y >= 28 || x < 4 || x >= 28 ? 0 : floor(8 * hashval(i, 8)) / 8, 0); };
    for (int k = 0; k < 2; ++k) for (int v = 0; v < 3; ++v)
    {
        // v: several sub-grids; one sub-grid in several chunks; several sub-grids with a log
        if (mc::quick() && k && v == 2) continue;
        const int rows = v == 1 ? 1100 : 10, ch = v == 1 ? 4 : 2; const double uv = v == 1 ? 20 : 55, w = v == 1 ? 4 : 20;
        static const char* N[] = {"sub-grids", "chunks", "verbose"};
        Call c; c.name = mc::strf("wstack_%s_all (%s)", k ? "degrid" : "grid", N[v]); c.tol = 1e-7;
        c.arrays = {{"vis", k ? INOUT : IN, C16, {rows, ch}, k ? num(0) : cdy(6)}, {"uvw", IN, F8, {rows, 3}, coords(5, uv, w)}, {"image", k ? IN : OUT, F8, {32, 32}, k ? inner : num(0)}};
        c.run = [k, v](const Mems& m, const Nums&, sdp_Error* st, Nums&)
        {
            if (k) sdp_grid_wstack_wtower_degrid_all(m[2], C0, C0 / 8, m[1], 16, 0.125, 16, 0.1, -0.1, v == 1 ? 2 : 4, 8, v == 1 ? 2 : 4, 8, 0.6, 2, v == 2 ? 2 : 0, m[0], 0, st);
            else sdp_grid_wstack_wtower_grid_all(m[0], C0, C0 / 8, m[1], 16, 0.125, 16, 0.1, -0.1, v == 1 ? 2 : 4, 8, v == 1 ? 2 : 4, 8, 0.6, 2, v == 2 ? 2 : 0, m[2], 0, st);
        };
        T.push_back(c);
    }
    return T;
}

struct Bound
{
    std::vector<Arr> arr; api::Mems mem; api::Nums num, ret; sdp_Error st = SDP_SUCCESS;
    void init(const Call& c, const Bound* shared = nullptr)
    {
        arr.resize(c.arrays.size());
        for (size_t i = 0; i < c.arrays.size(); ++i)
        {
            const Array& a = c.arrays[i];
            if (shared && a.role == api::IN) { mem.push_back(shared->mem[i]); continue; }
            arr[i].init(a.type, a.shape, L_C);
            for (int64_t k = 0; k < arr[i].size(); ++k) arr[i].set(k, a.fill(k, a.shape));
            mem.push_back(arr[i].mem);
        }
        for (auto& s : c.scalars) num.push_back(s.name == "threads" ? 0 : s.value);
    }
};

// The correction at the edge of the field amplifies rounding without limit: leave out the outer parts of an image.
static void edge(std::vector<cd>& v, const Shape& s)
{
    if (s.size() != 2 || s[0] != s[1]) return;
    for (int64_t i = 0; i < s[0]; ++i) for (int64_t j = 0; j < s[1]; ++j)
        if (i < s[0] / 8 || i >= s[0] - s[0] / 8 || j < s[1] / 8 || j >= s[1] - s[1] / 8) v[i * s[1] + j] = 0;
}

struct Base { bool done = false; std::vector<std::vector<cd>> vals; api::Nums ret; sdp_Error st; std::vector<std::pair<int, int>> regions[5]; bool counted[5] = {0, 0, 0, 0, 0}; };
static Base& baseline(int ci)
{
    static std::map<int, Base> cache;
    Base& r = cache[ci];
    if (r.done) return r;
    const Call& c = cases()[ci];
    Bound b; b.init(c);
    sched::cfg = sched::Config();
    mc::context("%s: one thread", c.name.c_str());
    sched::run([&] { c.run(b.mem, b.num, &b.st, r.ret); });
    for (auto& a : b.arr) r.vals.push_back(a.all());
    r.st = b.st; r.done = true;
    MC_CHECK(!b.st, "valid-call:" + c.name, "%s: a valid call failed with status %d", c.name.c_str(), (int) b.st);
    return r;
}
// The parallel regions of a call when run with T threads, and the synchronisation operations in each. In the quick tier only those
// instances of a piece of code are kept which synchronise most (and the first), in the thorough tier all of them.
static std::vector<std::pair<int, int>>& regions(int ci, int T)
{
    Base& r = baseline(ci);
    if (!r.counted[T])
    {
        Bound b; b.init(cases()[ci]);
        sched::cfg = sched::Config(); sched::cfg.max_threads = T; sched::cfg.detect = false;
        mc::context("%s: %d threads", cases()[ci].name.c_str(), T);
        sched::run([&] { cases()[ci].run(b.mem, b.num, &b.st, b.ret); });
        std::map<const void*, std::pair<int, int>> first, most;
        auto& rep = sched::rep;
        for (int i = 0; i < rep.regions; ++i)
        {
            const std::pair<int, int> x(i, rep.region_syncs[i]);
            if (!mc::quick()) { r.regions[T].push_back(x); continue; }
            if (!first.count(rep.region_site[i])) first[rep.region_site[i]] = most[rep.region_site[i]] = x;
            if (x.second > most[rep.region_site[i]].second) most[rep.region_site[i]] = x;
        }
        std::map<int, int> keep;
        for (auto& f : first) keep.insert(f.second);
        for (auto& f : most) keep.insert(f.second);
        for (auto& k : keep) r.regions[T].push_back(k);
        r.counted[T] = true;
    }
    return r.regions[T];
}
static uint64_t compare(const Call& c, int ci, const Bound& b, const char* how)
{
    Base& base = baseline(ci);
    uint64_t h = 1469598103934665603ull;
    MC_CHECK(b.st == base.st, "status:" + c.name, "%s: %s: status %d, not %d", c.name.c_str(), how, (int) b.st, (int) base.st);
    for (size_t i = 0; i < c.arrays.size(); ++i) if (b.arr[i].mem)
    {
        if (c.arrays[i].role == api::SCRATCH) continue;
        auto now = b.arr[i].all(), was = base.vals[i];
        if (c.name.find("wstack_grid") == 0) edge(now, c.arrays[i].shape), edge(was, c.arrays[i].shape);
        const double d = max_diff(now, was), scale = max_abs(was);
        const double tol = c.arrays[i].type == api::I4 ? 0 : (t_is_single(c.arrays[i].type) ? 1e-5 : 1e-12) * scale * (c.tol > 1e-8 ? 100 : 1);
        MC_CHECK(d <= tol, "result:" + c.name, "%s: %s: %s differs by %g (largest value %g) from the result with one thread", c.name.c_str(), how, c.arrays[i].name.c_str(), d, scale);
        h = mc::fnv(now.data(), now.size() * sizeof(cd), h);
    }
    MC_CHECK(b.ret.size() == base.ret.size(), "result:" + c.name, "%s: %s: another number of results", c.name.c_str(), how);
    for (size_t i = 0; i < b.ret.size(); ++i)
        MC_CHECK(fabs(b.ret[i] - base.ret[i]) <= 1e-6 * fabs(base.ret[i]), "result:" + c.name, "%s: %s: returned %g, with one thread %g", c.name.c_str(), how, b.ret[i], base.ret[i]);
    return h;
}
static void verdict(const Call& c, bool ok, const char* how)
{
    auto& r = sched::rep;
    MC_CHECK(r.races.empty(), "race:" + c.name, "%s: %s: %s%s%s", c.name.c_str(), how, r.races[0].c_str(), r.races.size() > 1 ? "; " : "", r.races.size() > 1 ? r.races[1].c_str() : "");
    MC_CHECK(ok, "stuck:" + c.name, "%s: %s: %s", c.name.c_str(), how, r.errors.empty() ? "?" : r.errors[0].c_str());
}

static void x01()
{
    const int N = (int) cases().size();
    const int ci = mc::choose(N, "call");
    const Call& c = cases()[ci];
    // how many threads are asked for, and how many the runtime provides
    const int mode = mc::choose(mc::quick() ? 3 : 5, "team");
    static const int ASK[] = {2, 3, 4, 4, 3}, GOT[] = {2, 3, 1, 4, 2};
    auto& reg = regions(ci, ASK[mode]);
    const int n = (int) reg.size();
    if (!n) { mc::choose(1); if (mode) mc::infeasible(); return; }
    const int f = GOT[mode] == 1 ? (mc::choose(1), -1) : mc::choose(n, "region"), focus = f < 0 ? -1 : reg[f].first, syncs = f < 0 ? 0 : reg[f].second;
    Bound b; b.init(c);
    sched::cfg = sched::Config();
    sched::cfg.max_threads = ASK[mode]; sched::cfg.limit = GOT[mode]; sched::cfg.focus = focus;
    sched::cfg.preemptions = mc::quick() ? (syncs > 30 || GOT[mode] > 2 ? 1 : 2) : (syncs > 60 || GOT[mode] > 2 ? 2 : 3);
    sched::cfg.choose = [](int k) { return mc::choose(k, "t"); };
    mc::context("%s", c.name.c_str());
    mc::calls();
    const bool ok = sched::run([&] { c.run(b.mem, b.num, &b.st, b.ret); });
    mc::count("synchronisation operations", sched::rep.syncs);
    mc::count("memory accesses checked", sched::rep.accesses);
    mc::count("scheduling choices", sched::rep.choices);
    char how[80]; snprintf(how, sizeof how, "%d threads (%d asked for)", GOT[mode], ASK[mode]);
    verdict(c, ok, how);
    mc::state(compare(c, ci, b, how));
}

static void x02()
{
    const int N = (int) cases().size();
    const int i = mc::choose(N, "call");
    const int j = i + mc::choose(N - i, "other");
    const bool share = i == j && mc::flip("shared inputs");
    if (i != j) mc::choose(1);
    const Call &c = cases()[i], &d = cases()[j];
    baseline(i); baseline(j);
    Bound b, e; b.init(c); e.init(d, share ? &b : nullptr);
    sched::cfg = sched::Config();
    sched::cfg.max_threads = 2; sched::cfg.focus = 0; sched::cfg.preemptions = mc::quick() ? 0 : 1;
    sched::cfg.choose = [](int k) { return mc::choose(k, "t"); };
    mc::context("%s and %s", c.name.c_str(), d.name.c_str());
    mc::calls(2);
    const bool ok = sched::run([&]
    {
        sched::together({[&] { c.run(b.mem, b.num, &b.st, b.ret); }, [&] { d.run(e.mem, e.num, &e.st, e.ret); }});
    });
    mc::count("synchronisation operations", sched::rep.syncs);
    mc::count("memory accesses checked", sched::rep.accesses);
    const std::string how = "at the same time as " + d.name + (share ? " with the same inputs" : ""), how2 = "at the same time as " + c.name;
    verdict(c, ok, how.c_str());
    compare(c, i, b, how.c_str());
    compare(d, j, e, how2.c_str());
}

static void body()
{
    if (mc::prop("X01")) x01();
    if (mc::prop("X02")) x02();
}

MC_MAIN(body)
