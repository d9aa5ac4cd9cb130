// T01 timers under a virtual clock; E03 array checks and views; U01 log messages; U03 sky coordinates.
#include "mc/arr.hpp"
#include "ska-sdp-func/utility/sdp_data_model_checks.h"
#include "ska-sdp-func/utility/sdp_mem_view.h"
#include "ska-sdp-func/utility/sdp_sky_coord.h"
#include "ska-sdp-func/utility/sdp_timer.h"
#include <sys/syscall.h>
#include <sys/time.h>

// ------------------------------------------------------------------ virtual clock
namespace vclock {
static bool on = false;
static double mono = 0;           // seconds
static long wall_s = 0, wall_us = 0;
static long wall_step_us = 0;     // added to the wall clock after every look at it
static long looks = 0;
static void advance_wall(long us)
{
    long long t = wall_s * 1000000ll + wall_us + us;
    wall_s = (long) (t / 1000000); wall_us = (long) (t % 1000000);
}
static void look() { ++looks; if (wall_step_us) advance_wall(wall_step_us); }
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if (!vclock::on) return (int) syscall(SYS_clock_gettime, id, ts);
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
    {
        ts->tv_sec = vclock::wall_s; ts->tv_nsec = vclock::wall_us * 1000; vclock::look();
    }
    else if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) { ts->tv_sec = 0; ts->tv_nsec = 0; }
    else
    {
        ts->tv_sec = (time_t) vclock::mono;
        ts->tv_nsec = (long) ((vclock::mono - (double) ts->tv_sec) * 1e9);
    }
    return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void* tz) noexcept
{
    if (!vclock::on) return (int) syscall(SYS_gettimeofday, tv, tz);
    tv->tv_sec = vclock::wall_s; tv->tv_usec = vclock::wall_us; vclock::look();
    return 0;
}
extern "C" time_t time(time_t* t) noexcept
{
    if (!vclock::on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
    time_t r = vclock::wall_s;
    vclock::look();
    if (t) *t = r;
    return r;
}
struct VirtualTime
{
    VirtualTime(double mono, long wall)
    {
        vclock::mono = mono; vclock::wall_s = wall; vclock::wall_us = 0; vclock::wall_step_us = 0; vclock::on = true;
    }
    ~VirtualTime() { vclock::on = false; }
};
// step i of a history lasts a time of its own, so that sums identify the steps; meanwhile the wall clock is set wildly
static void step_time(int i)
{
    vclock::mono += 0.125 * (1 << i);
    vclock::wall_s += (i % 2 ? -1000 : 777) + i;
}

// ------------------------------------------------------------------ T01 single timer
struct ModelTimer
{
    bool made = false, running = false;
    double banked = 0, since = 0;
    double value() const { return banked + (running ? vclock::mono - since : 0); }
    void resume() { if (!running) { running = true; since = vclock::mono; } }
    void pause() { if (running) { banked += vclock::mono - since; running = false; } }
    void start() { banked = 0; running = true; since = vclock::mono; }
    void reset() { banked = 0; running = false; }
};
static void t01_single()
{
    const int depth = mc::quick() ? 6 : 8;
    VirtualTime vt(1000.5, 1700000000);
    const int both = mc::choose(2, "timers");       // one or two independent timers
    sdp_Timer* t[2] = {sdp_timer_create(SDP_TIMER_NATIVE), both ? sdp_timer_create(SDP_TIMER_NATIVE) : nullptr};
    ModelTimer m[2];
    const int d = both ? depth - 2 : depth;
    int i = 0;
    std::string bad;
    for (; i < d && bad.empty(); ++i)
    {
        static const char* names[] = {"resume", "pause", "start", "reset", "elapsed", "restart"};
        step_time(i);
        const int w = both ? mc::choose(2, "which") : 0;
        const int op = mc::choose(6, "op");
        if (op == 5 && m[w].running) { for (auto x : t) sdp_timer_free(x); mc::infeasible(); }
        mc::context("timer %s", names[op]);
        mc::calls();
        switch (op)
        {
        case 0: sdp_timer_resume(t[w]); m[w].resume(); break;
        case 1: sdp_timer_pause(t[w]); m[w].pause(); break;
        case 2: sdp_timer_start(t[w]); m[w].start(); break;
        case 3: sdp_timer_reset(t[w]); m[w].reset(); break;
        case 5: sdp_timer_restart(t[w]); m[w].resume(); break;
        case 4:
        {
            double e = sdp_timer_elapsed(t[w]);
            if (!(std::fabs(e - m[w].value()) < 1e-6))
                bad = mc::strf("elapsed time %g s, timer ran for %g s", e, m[w].value());
            break;
        }
        }
        double h[5] = {(double) w, m[w].banked, m[w].since, (double) m[w].running, (double) i};
        mc::state(h, sizeof h);
    }
    for (int k = 0; k < 2 && bad.empty(); ++k)   // at the end, twice, with time passing between
    {
        step_time(i++);
        for (int w = 0; w <= both && bad.empty(); ++w)
        {
            double e = sdp_timer_elapsed(t[w]);
            mc::calls();
            if (!(std::fabs(e - m[w].value()) < 1e-6))
                bad = mc::strf("elapsed time %g s at the end, timer ran for %g s", e, m[w].value());
        }
    }
    for (auto x : t) sdp_timer_free(x);
    MC_CHECK(bad.empty(), "single", "%s", bad.c_str());
}

// ------------------------------------------------------------------ T01 hierarchy
struct ModelNode
{
    std::string name;
    ModelNode* parent = nullptr;
    std::map<std::string, std::unique_ptr<ModelNode>> child;
    std::vector<ModelTimer> slot;
    sdp_TimerNode* ptr = nullptr;      // as returned by the library, once known
    ModelNode* get(const std::string& n)
    {
        auto& c = child[n];
        if (!c) { c.reset(new ModelNode); c->name = n; c->parent = this; }
        return c.get();
    }
    double total() const { double t = 0; for (auto& s : slot) t = std::max(t, s.value()); return t; }
};
struct Line { int indent; char sym; std::string name; double sec, pct; bool has_pct; int used = 0; };
static std::vector<Line> parse_report(const std::string& text, std::string& bad)
{
    std::vector<Line> out;
    size_t p = 0;
    while (p < text.size())
    {
        size_t e = text.find('\n', p);
        if (e == std::string::npos) e = text.size();
        std::string l = text.substr(p, e - p);
        p = e + 1;
        size_t q = l.find("|| | ");
        if (q == std::string::npos) { bad = "report line without '|| | ': " + l; return out; }
        if (l.find("|a_func|a_file#77|") == std::string::npos) { bad = "report line without the caller's position: " + l; return out; }
        std::string r = l.substr(q + 5);
        Line x;
        x.indent = 0;
        while (x.indent < (int) r.size() && r[x.indent] == ' ') ++x.indent;
        x.sym = r[x.indent];
        size_t c = r.rfind(": ");
        if (c == std::string::npos || x.indent + 2 > (int) c) { bad = "unreadable report line: " + l; return out; }
        x.name = r.substr(x.indent + 2, c - x.indent - 2);
        while (!x.name.empty() && x.name.back() == ' ') x.name.pop_back();
        std::string v = r.substr(c + 2);
        char* end;
        x.sec = strtod(v.c_str(), &end);
        x.has_pct = strchr(end, '(') != nullptr;
        x.pct = x.has_pct ? strtod(strchr(end, '(') + 1, nullptr) : 0;
        out.push_back(x);
    }
    return out;
}
static bool same_time(double a, double b) { return std::fabs(a - b) < 0.00101; }
// check lines [k, ...) below the node; returns the index after the node's lines
static size_t check_lines(const ModelNode& n, const std::vector<Line>& l, size_t k, int indent, std::string& bad)
{
    const double total = n.total();
    std::set<std::string> left;
    for (auto& c : n.child) left.insert(c.first);
    double last = 1e300, sum = 0;
    for (size_t i = 0; i < n.child.size(); ++i)
    {
        if (k >= l.size() || l[k].indent <= indent) { bad = "timer missing from the report: " + *left.begin(); return k; }
        const Line& x = l[k];
        if (!left.count(x.name)) { bad = "report names timer '" + x.name + "' which is not (or already) below '" + n.name + "'"; return k; }
        left.erase(x.name);
        const ModelNode& c = *n.child.at(x.name);
        const double t = c.total();
        if (!same_time(x.sec, t)) { bad = mc::strf("timer '%s' reported as %g s, ran for %g s", x.name.c_str(), x.sec, t); return k; }
        if (total > 0 && !(std::fabs(x.pct - 100 * t / total) < 0.06))
        {
            bad = mc::strf("timer '%s' reported as %g%%, is %g%% of its parent", x.name.c_str(), x.pct, 100 * t / total); return k;
        }
        if (t > last + 1e-9) { bad = "timers are not reported in descending order of time"; return k; }
        last = t;
        sum += t;
        const int ind = x.indent;
        ++k;
        if (c.slot.size() > 1)
        {
            std::vector<double> v;
            for (auto& s : c.slot) v.push_back(s.value());
            std::sort(v.begin(), v.end());
            const size_t m = v.size();
            // quartiles: any of the usual conventions, which place the first one between these ranks
            const size_t q0 = (m + 1) / 4 ? (m + 1) / 4 - 1 : 0, q1 = std::max(m / 4, (m + 2) / 4);
            const double least = m - 1 - q1 > q1 ? v[m - 1 - q1] - v[q1] : 0;
            double lo[4] = {v[0], v[m - 1], v[(m - 1) / 2], least}, hi[4] = {v[0], v[m - 1], v[m / 2], v[m - 1 - q0] - v[q0]};
            const char* nm[4] = {"Minimum", "Maximum", "Median", "Interquartile range"};
            for (int j = 0; j < 4; ++j, ++k)
            {
                if (k >= l.size() || l[k].name != nm[j] || l[k].indent <= ind)
                {
                    bad = mc::strf("statistics of timer '%s' not reported: %s", c.name.c_str(), nm[j]); return k;
                }
                if (!(l[k].sec >= lo[j] - 0.00101 && l[k].sec <= hi[j] + 0.00101))
                {
                    bad = mc::strf("%s of timer '%s' reported as %g s, is in %g..%g s", nm[j], c.name.c_str(), l[k].sec, lo[j], hi[j]);
                    return k;
                }
            }
        }
        if (c.child.size())
        {
            k = check_lines(c, l, k, ind, bad);
            if (!bad.empty()) return k;
        }
    }
    const bool want = sum < 0.99 * total;
    const bool got = k < l.size() && l[k].indent > indent && l[k].name == "(unaccounted time)";
    if (want != got) { bad = mc::strf("time not accounted for below '%s' is %g of %g s, %s", n.name.c_str(), total - sum, total, got ? "reported" : "not reported"); return k; }
    if (got)
    {
        if (!same_time(l[k].sec, total - sum)) bad = mc::strf("unaccounted time reported as %g s, is %g s", l[k].sec, total - sum);
        ++k;
    }
    return k;
}
static std::string captured_report(sdp_Timers* t)
{
    char* buf = nullptr; size_t len = 0;
    FILE* keep = stdout;
    FILE* f = open_memstream(&buf, &len);
    stdout = f;
    sdp_timers_report(t, "a_func", "a_file", 77);
    stdout = keep;
    fclose(f);
    std::string s(buf, len);
    free(buf);
    return s;
}
static void t01_tree()
{
    VirtualTime vt(1000.5, 1700000000);
    // focus: names and slots over one thread, or a set of slots used by two threads
    const int scen = mc::choose(3, "scenario");
    const int depth = (mc::quick() ? 5 : 6) + (scen == 0 ? 1 : 0);
    sdp_Timers* T = sdp_timers_create("root", SDP_TIMER_NATIVE, 3);
    ModelNode root;
    root.name = "root, 3 threads";
    root.slot.resize(1);
    root.slot[0].resume();
    root.ptr = sdp_timers_root(T);
    ModelNode* cur = &root;
    ModelNode* tc[2] = {&root, &root};
    std::string bad;
    auto child = [&](ModelNode* p, const char* n, int slots) { ModelNode* c = p->get(n); if ((int) c->slot.size() < slots) c->slot.resize(slots); return c; };
    auto learn = [&](ModelNode* n, sdp_TimerNode* p, const char* what)
    {
        if (!p || (n->ptr && n->ptr != p)) bad = mc::strf("%s returned the handle of another timer than '%s'", what, n->name.c_str());
        n->ptr = p;
    };
    static const char* nm[] = {"a", "b", "c"};
    bool stop = false;
    int i = 0;
    for (; i < depth && bad.empty() && !stop; ++i)
    {
        step_time(i);
        mc::calls();
        // scenario 0: internal state only; 1, 2: threads with explicit nodes and sets (2: three slots)
        if (scen == 0)
        {
            const int op = mc::choose(7, "op");
            mc::context("timers op %d", op);
            if (op < 2) { ModelNode* c = child(cur, nm[op], 1); c->slot[0].resume(); cur = c; sdp_timers_push(T, nm[op], 0, 0); }
            else if (op == 2)
            {
                if (cur != &root) { cur->slot[0].pause(); cur = cur->parent; }
                sdp_timers_pop(T, 0, 0);
            }
            else if (op < 5)
            {
                if (cur != &root) { cur->slot[0].pause(); cur = cur->parent; }
                ModelNode* c = child(cur, nm[op - 3], 1); c->slot[0].resume(); cur = c;
                sdp_timers_pop_push(T, nm[op - 3], 0, 0);
            }
            else if (op == 5) (void) captured_report(T);
            else { child(cur, "a", 2); sdp_TimerNode* n = sdp_timers_create_set(T, "a", 2, 0); learn(cur->get("a"), n, "create_set"); }
        }
        else
        {
            const int ns = scen + 1;
            const int op = mc::choose(10, "op");
            mc::context("timers thread op %d", op);
            if (op == 0) { ModelNode* c = child(&root, "a", ns); learn(c, sdp_timers_create_set(T, "a", ns, root.ptr), "create_set"); }
            else if (op == 1)
            {
                if (!root.child.count("a") || !root.child["a"]->ptr) { stop = true; break; }
                ModelNode* a = root.child["a"].get(); ModelNode* c = child(a, "b", ns);
                learn(c, sdp_timers_create_set(T, "b", ns, a->ptr), "create_set");
            }
            else if (op == 2) { ModelNode* c = child(&root, "a", 1); c->slot[0].resume(); cur = c; sdp_timers_push(T, "a", 0, 0); sdp_timers_pop(T, 0, 0); c->slot[0].pause(); cur = &root; }
            else if (op == 3) (void) captured_report(T);
            else
            {
                const int th = (op - 4) / 3, kind = (op - 4) % 3, idx = th == 0 ? 0 : ns - 1;
                ModelNode*& c = tc[th];
                if (kind == 1)
                {
                    ModelNode* p = c == &root ? c : c->parent;
                    if (c != &root) c->slot[idx].pause();
                    sdp_TimerNode* r = sdp_timers_pop(T, idx, c->ptr);
                    learn(p, r, "pop");
                    c = p;
                }
                else
                {
                    ModelNode* at = c;
                    if (kind == 2 && c != &root) at = c->parent;
                    const char* name = kind == 0 ? (at == &root ? "a" : "b") : (at == &root ? "c" : "b");
                    // a thread other than the first needs its slot to have been made
                    if (idx > 0 && (!at->child.count(name) || (int) at->child[name]->slot.size() <= idx)) { stop = true; break; }
                    if (kind == 2 && c != &root) c->slot[idx].pause();
                    ModelNode* x = child(at, name, 1);
                    x->slot[idx].resume();
                    sdp_TimerNode* r = kind == 0 ? sdp_timers_push(T, name, idx, c->ptr) : sdp_timers_pop_push(T, name, idx, c->ptr);
                    learn(x, r, kind == 0 ? "push" : "pop_push");
                    c = x;
                }
            }
        }
    }
    if (stop) { sdp_timers_free(T); mc::infeasible(); }
    step_time(i);
    if (bad.empty())
    {
        std::string text = captured_report(T);
        std::vector<Line> l = parse_report(text, bad);
        if (bad.empty())
        {
            if (l.empty() || l[0].name != root.name || !same_time(l[0].sec, root.total())) bad = "first line of the report is not the name of the set of timers and its total time";
            else
            {
                size_t k = check_lines(root, l, 1, l[0].indent, bad);
                if (bad.empty() && k != l.size()) bad = "report has a line too many: " + l[k].name;
            }
        }
        mc::state(text.data(), text.size());
    }
    sdp_timers_free(T);
    MC_CHECK(bad.empty(), "tree", "%s", bad.c_str());
}
// sets of many slots, many timers side by side, deep nesting: what the report says of them
static void t01_stats()
{
    static const int threads[] = {0, 1, 2, 3, 12, 100};
    VirtualTime vt(1000.5, 1700000000);
    const int m = 1 + mc::choose(12, "slots");
    const int pattern = mc::choose(4, "times");       // ascending, descending, alternating, hashed
    const int unused = mc::choose(3, "unused slots"); // none, the last third, every other
    const int again = mc::choose(4, "set made again"); // no, with fewer, with as many, with more slots
    const int nt = threads[mc::choose(6, "threads")];
    const int sib = mc::choose(3, "timers beside it") * 3;  // 0, 3 or 6
    sdp_Timers* T = sdp_timers_create("root", SDP_TIMER_NATIVE, nt);
    ModelNode root;
    root.name = mc::strf("root, %d thread%s", nt, nt > 1 ? "s" : "");
    root.slot.resize(1);
    root.slot[0].resume();
    root.ptr = sdp_timers_root(T);
    std::string bad;
    auto seconds = [&](int i, int n, unsigned salt)
    {
        switch (pattern)
        {
        case 0: return 0.25 + 0.5 * i + 0.0625 * i * i;
        case 1: return 0.25 + 0.5 * (n - i) + 0.0625 * (n - i) * (n - i);
        case 2: return (i & 1) ? 40.0 - i * 1.25 : 1.0 + i * 0.375;
        default: return 0.125 * (1 + ((i + 1) * 2654435761u + salt * 40503u) / 65536 % 257);
        }
    };
    auto use = [&](ModelNode* at, const char* name, int idx, double t)
    {
        // explicit nodes: as each of several threads would
        ModelNode* x = at->get(name);
        if (x->slot.empty()) x->slot.resize(1);
        x->slot[idx].resume();
        sdp_TimerNode* r = sdp_timers_push(T, name, idx, at->ptr);
        if (!r || (x->ptr && x->ptr != r)) bad = "push returned the handle of another timer";
        x->ptr = r;
        vclock::mono += t;
        vclock::wall_s -= 3;
        x->slot[idx].pause();
        if (sdp_timers_pop(T, idx, r) != at->ptr) bad = "pop did not return the handle of the parent";
        mc::calls(2);
    };
    auto make_set = [&](ModelNode* at, const char* name, int n)
    {
        ModelNode* x = at->get(name);
        if ((int) x->slot.size() < n) x->slot.resize(n);
        sdp_TimerNode* r = sdp_timers_create_set(T, name, n, at->ptr);
        if (!r || (x->ptr && x->ptr != r)) bad = "create_set returned the handle of another timer";
        x->ptr = r;
        mc::calls();
    };
    mc::context("report on a set of %d timers", m);
    make_set(&root, "set", m);
    for (int i = 0; i < m; ++i)
    {
        if (unused == 1 && i >= m - m / 3) continue;
        if (unused == 2 && (i & 1)) continue;
        use(&root, "set", i, seconds(i, m, 1));
    }
    if (again) make_set(&root, "set", again == 1 ? (m + 1) / 2 : again == 2 ? m : m + 3);
    if (again == 3) use(&root, "set", m + 2, 3.625);
    static const char* names[] = {"f", "b", "e", "a", "d", "c"};
    for (int i = 0; i < sib; ++i) use(&root, names[i], 0, seconds(i, sib, 7));
    // a chain below the last timer, each with a set of slots of its own
    ModelNode* at = root.get("set");
    for (int d = 0; d < sib; ++d)
    {
        make_set(at, names[d], 2 + d);
        at->slot[0].resume();
        if (sdp_timers_push(T, at->name.c_str(), 0, at->parent->ptr) != at->ptr) bad = "push returned the handle of another timer";
        for (int i = 0; i < 2 + d; ++i) use(at, names[d], i, seconds(i, 2 + d, 11 + d));
        at->slot[0].pause();
        (void) sdp_timers_pop(T, 0, at->ptr);
        at = at->get(names[d]);
    }
    vclock::mono += mc::choose(2, "time not accounted for") * 100.0;
    for (int times = 0; times < 2 && bad.empty(); ++times)   // a report changes nothing
    {
        std::string text = captured_report(T);
        std::vector<Line> l = parse_report(text, bad);
        if (bad.empty())
        {
            if (l.empty() || l[0].name != root.name || !same_time(l[0].sec, root.total()))
                bad = mc::strf("first line of the report is not '%s' with %g s", root.name.c_str(), root.total());
            else
            {
                size_t k = check_lines(root, l, 1, l[0].indent, bad);
                if (bad.empty() && k != l.size()) bad = "report has a line too many: " + l[k].name;
            }
        }
        mc::state(text.data(), text.size());
    }
    sdp_timers_free(T);
    MC_CHECK(bad.empty(), "report", "%s", bad.c_str());
}
static void run_t01()
{
    const int kind = mc::choose(3, "kind");
    if (kind == 0) t01_single();
    else if (kind == 1) t01_tree();
    else t01_stats();
}

// ------------------------------------------------------------------ E03
static const sdp_MemType TY[] = {SDP_MEM_CHAR, SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
// C contiguous? 1 yes, 0 no, -1 not settled (strides of dimensions of size one, scalars)
static int contiguous(const Arr& a)
{
    int64_t s = (int64_t) tsize(a.type);
    bool strict = true, loose = true;
    for (int i = a.nd() - 1; i >= 0; --i)
    {
        if (a.stride[i] != s) { strict = false; if (a.shape[i] > 1) loose = false; }
        s *= a.shape[i];
    }
    if (!a.nd()) return -1;   // a scalar
    return strict ? 1 : loose ? -1 : 0;
}
struct Judge
{
    bool must_ok = true, may_ok = true;
    std::set<int> codes;
    void need(bool ok, int code) { if (!ok) { must_ok = may_ok = false; codes.insert(code); } }
    void need3(int ok, int code) { if (ok == 1) return; must_ok = false; codes.insert(code); if (ok == 0) may_ok = false; }
    // what is wrong with the status, if anything
    std::string wrong(int got) const
    {
        if (got == 0 && !may_ok) return mc::strf("accepted, but should be refused with code %d", *codes.begin());
        if (got != 0 && must_ok) return mc::strf("refused with code %d although it meets every condition", got);
        if (got != 0 && !codes.count(got)) return mc::strf("refused with code %d, which does not name a condition that fails", got);
        return "";
    }
};
static const int BAD_ARG = SDP_ERR_INVALID_ARGUMENT, BAD_TYPE = SDP_ERR_DATA_TYPE, BAD_LOC = SDP_ERR_MEM_LOCATION;

template<typename T, int ND, sdp_MemLocation LOC>
static void one_view(const Arr& a, bool ro, const std::string& what)
{
    for (int cons = 0; cons < 2; ++cons)
        for (int prior = 0; prior < 2; ++prior)
        {
            sdp_Error st = prior ? SDP_ERR_RUNTIME : SDP_SUCCESS;
            sdp_MemView<T, ND, LOC> v;
            sdp_MemView<const T, ND, LOC> cv;
            mc::calls();
            if (cons) sdp_mem_check_and_view((const sdp_Mem*) a.mem, &cv, &st);
            else sdp_mem_check_and_view(a.mem, &v, &st);
            std::string k = mc::strf("view/%s", cons ? "const" : "write");
            if (prior) { if (st != SDP_ERR_RUNTIME) mc::fail(k + "/prior", "%s: earlier error %d replaced by %d", what.c_str(), SDP_ERR_RUNTIME, st); continue; }
            Judge j;
            j.need(a.type == sdp_mem_lift_type<T>(), BAD_TYPE);
            j.need(a.nd() == ND, BAD_ARG);
            j.need(sdp_mem_location(a.mem) == LOC, BAD_LOC);
            if (!cons) j.need(!ro, BAD_ARG);
            // a view counts its steps in elements
            for (int d = 0; d < a.nd(); ++d)
                if (a.stride[d] % (int64_t) tsize(a.type)) j.need3(a.shape[d] > 1 ? 0 : -1, BAD_ARG);
            std::string w = j.wrong(st);
            MC_CHECK(w.empty(), k, "%s viewed as %s with %d dimensions at %s: %s", what.c_str(), tname(sdp_mem_lift_type<T>()), ND, LOC ? "GPU" : "CPU", w.c_str());
            if (st) continue;
            const T* p = cons ? cv.ptr : v.ptr;
            MC_CHECK((const char*) p == a.data, k + "/data", "%s: view starts at another address", what.c_str());
            for (int d = 0; d < ND; ++d)
            {
                MC_CHECK((cons ? cv.shape[d] : v.shape[d]) == a.shape[d], k + "/shape", "%s: size of dimension %d differs in the view", what.c_str(), d);
                if (a.shape[d] > 1 || a.stride[d] % (int64_t) sizeof(T) == 0)
                    MC_CHECK((cons ? cv.stride[d] : v.stride[d]) * (int64_t) sizeof(T) == a.stride[d], k + "/stride", "%s: stride of dimension %d differs in the view", what.c_str(), d);
            }
        }
}
template<typename T, int ND> struct At;
template<typename T> struct At<T, 1> { template<class V> static const void* at(V& v, const int64_t* i) { return &v(i[0]); } };
template<typename T> struct At<T, 2> { template<class V> static const void* at(V& v, const int64_t* i) { return &v(i[0], i[1]); } };
template<typename T> struct At<T, 3> { template<class V> static const void* at(V& v, const int64_t* i) { return &v(i[0], i[1], i[2]); } };
template<typename T> struct At<T, 4> { template<class V> static const void* at(V& v, const int64_t* i) { return &v(i[0], i[1], i[2], i[3]); } };
template<typename T> struct At<T, 5> { template<class V> static const void* at(V& v, const int64_t* i) { return &v(i[0], i[1], i[2], i[3], i[4]); } };
template<typename T, int ND>
static void view_elements(const Arr& a, const std::string& what)
{
    if (a.type != sdp_mem_lift_type<T>() || a.nd() != ND) return;
    sdp_Error st = SDP_SUCCESS;
    sdp_MemViewCpu<T, ND> v;
    sdp_MemViewCpu<const T, ND> cv;
    sdp_mem_check_and_view(a.mem, &v, &st);
    sdp_mem_check_and_view((const sdp_Mem*) a.mem, &cv, &st);
    if (st) return;
    const sdp_MemViewCpu<T, ND>& vc = v;
    int64_t idx[5];
    for (int64_t l = 0; l < a.size(); ++l)
    {
        int64_t r = l;
        for (int d = ND - 1; d >= 0; --d) { idx[d] = r % a.shape[d]; r /= a.shape[d]; }
        mc::calls();
        const void* want = a.at(l);
        MC_CHECK((At<T, ND>::at(v, idx) == want) && (At<T, ND>::at(vc, idx) == want) && (At<T, ND>::at(cv, idx) == want), "view/element",
                "%s: element %ld of the view is at the wrong address", what.c_str(), (long) l);
    }
}
template<typename T> static void views(const Arr& a, bool ro, const std::string& what)
{
    one_view<T, 1, SDP_MEM_CPU>(a, ro, what); one_view<T, 2, SDP_MEM_CPU>(a, ro, what); one_view<T, 3, SDP_MEM_CPU>(a, ro, what);
    one_view<T, 4, SDP_MEM_CPU>(a, ro, what); one_view<T, 5, SDP_MEM_CPU>(a, ro, what); one_view<T, 2, SDP_MEM_GPU>(a, ro, what);
    if (sdp_mem_location(a.mem) == SDP_MEM_CPU && !ro)
    {
        view_elements<T, 1>(a, what); view_elements<T, 2>(a, what); view_elements<T, 3>(a, what);
        view_elements<T, 4>(a, what); view_elements<T, 5>(a, what);
    }
}
static void e03_basic()
{
    const sdp_MemType type = TY[mc::choose(6, "type")];
    const sdp_MemLocation loc = mc::flip("gpu") ? SDP_MEM_GPU : SDP_MEM_CPU;
    const Layout lay = (Layout) mc::choose(5, "layout");
    if (lay == L_ODD && tsize(type) < 2) mc::infeasible();
    const bool ro = mc::flip("readonly");
    const int nd = mc::choose(6, "ndim");
    static const int64_t szs[] = {1, 2, 3};
    Shape s;
    for (int i = 0; i < nd; ++i)
        s.push_back(i < 2 ? szs[mc::choose(3, "size")] : (nd > 3 ? (i == nd - 1 ? szs[mc::choose(2, "size")] : 2) : szs[mc::choose(3, "size")]));
    Arr a(type, s, lay, loc);
    sdp_mem_set_read_only(a.mem, ro);
    const std::string what = mc::strf("%s array %s, layout %d, %s%s", tname(type), shape_str(s).c_str(), lay, loc ? "GPU" : "CPU", ro ? ", read-only" : "");
    mc::state(what.data(), what.size());
    mc::context("checks of an array");
    auto judge = [&](const char* fn, const std::string& expect, const Judge& j, const std::function<void(sdp_Error*)>& call)
    {
        for (int prior = 0; prior < 2; ++prior)
        {
            sdp_Error st = prior ? SDP_ERR_MEM_COPY_FAILURE : SDP_SUCCESS;
            mc::calls();
            call(&st);
            if (prior) { MC_CHECK(st == SDP_ERR_MEM_COPY_FAILURE, std::string(fn) + "/prior", "%s: an earlier error was replaced by %d", fn, st); continue; }
            std::string w = j.wrong(st);
            MC_CHECK(w.empty(), fn, "%s (%s) for %s: %s", fn, expect.c_str(), what.c_str(), w.c_str());
        }
    };
    { Judge j; j.need(!ro, BAD_ARG); judge("writeable", "", j, [&](sdp_Error* e) { sdp_mem_check_writeable(a.mem, e); }); }
    { Judge j; j.need3(contiguous(a), BAD_ARG); judge("contiguity", "", j, [&](sdp_Error* e) { sdp_mem_check_c_contiguity(a.mem, e); }); }
    for (int l = 0; l < 2; ++l)
    {
        Judge j; j.need((int) loc == l, BAD_LOC);
        judge("location", mc::strf("%d", l), j, [&](sdp_Error* e) { sdp_mem_check_location(a.mem, (sdp_MemLocation) l, e); });
    }
    for (int n = 0; n < 7; ++n)
    {
        Judge j; j.need(n == nd, BAD_ARG);
        judge("num_dims", mc::strf("%d", n), j, [&](sdp_Error* e) { sdp_mem_check_num_dims(a.mem, n, e); });
    }
    for (int k = 0; k < 7; ++k)
    {
        sdp_MemType t = k < 6 ? TY[k] : SDP_MEM_VOID;
        Judge j; j.need(t == type, BAD_TYPE);
        judge("type", tname(t), j, [&](sdp_Error* e) { sdp_mem_check_type(a.mem, t, e); });
    }
    for (int d = 0; d < 6; ++d)
        for (int64_t z = 0; z < 5; ++z)
        {
            Judge j; j.need(d < nd ? s[d] == z : false, BAD_ARG);
            if (d < nd || z > 0)
                judge("dim_size", mc::strf("dim %d = %ld", d, (long) z), j, [&](sdp_Error* e) { sdp_mem_check_dim_size(a.mem, d, z, e); });
            judge("shape_dim", mc::strf("dim %d = %ld", d, (long) z), j, [&](sdp_Error* e) { sdp_mem_check_shape_dim(a.mem, d, z, e); });
        }
    // sizes which differ only above 32 bits
    if (nd)
    {
        const int64_t z = s[0] + (1ll << 32);
        Judge j; j.need(false, BAD_ARG);
        judge("dim_size", "huge", j, [&](sdp_Error* e) { sdp_mem_check_dim_size(a.mem, 0, z, e); });
        judge("shape_dim", "huge", j, [&](sdp_Error* e) { sdp_mem_check_shape_dim(a.mem, 0, z, e); });
    }
    for (int dev = -1; dev < nd; ++dev)
        for (int delta : {-1, 1})
            for (int n = std::max(0, nd - 1); n <= nd + 1; ++n)
            {
                Shape x = s;
                x.resize(nd + 1, 1);
                if (dev >= 0) x[dev] += delta;
                Judge j;
                j.need(n == nd, BAD_ARG);
                j.need(dev < 0, BAD_ARG);
                judge("shape", shape_str(x) + mc::strf(" x%d", n), j, [&](sdp_Error* e) { sdp_mem_check_shape(a.mem, n, x.data(), e); });
            }
    for (int d = 0; d < 5; ++d)
        for (int z = 1; z < 4; ++z)
            for (int d2 = 0; d2 < 3; ++d2)
            {
                Shape s2 = {1, 1};
                if (d2 < 2) s2[d2] = z;
                Arr b(SDP_MEM_FLOAT, s2, L_C);
                Judge j;
                j.need(!(d < nd && d2 < 2) || s[d] == s2[d2], BAD_ARG);
                judge("same_shape", mc::strf("dims %d, %d", d, d2), j, [&](sdp_Error* e) { sdp_mem_check_same_shape(a.mem, d, b.mem, d2, e); });
            }
    for (int d = 0; d < nd; ++d) for (int d2 = 0; d2 < nd; ++d2)
    {
        Judge j; j.need(s[d] == s[d2], BAD_ARG);
        judge("same_shape", mc::strf("own dims %d, %d", d, d2), j, [&](sdp_Error* e) { sdp_mem_check_same_shape(a.mem, d, a.mem, d2, e); });
    }
    // matching metadata: itself, and arrays with one deviation
    for (int dev = 0; dev < 6; ++dev)
        for (int cl = 0; cl < 2; ++cl)
        {
            Shape s2 = s;
            sdp_MemType t2 = type;
            sdp_MemLocation l2 = loc;
            Layout y2 = lay;
            if (dev == 1) t2 = TY[((int) (std::find(TY, TY + 6, type) - TY) + 1) % 6];
            if (dev == 2) { if (!nd) continue; s2[nd - 1]++; }
            if (dev == 3) s2.push_back(1);
            if (dev == 4) l2 = loc ? SDP_MEM_CPU : SDP_MEM_GPU;
            if (dev == 5) y2 = (Layout) ((lay + 1) % 4);
            if (s2.size() > 5) continue;
            Arr b(t2, s2, y2, l2);
            bool same = t2 == type && s2 == s && b.stride == a.stride && (!cl || l2 == loc);
            for (int swap = 0; swap < 2; ++swap)
            {
                mc::calls();
                int got = swap ? sdp_mem_is_matching(b.mem, a.mem, cl) : sdp_mem_is_matching(a.mem, b.mem, cl);
                MC_CHECK((got != 0) == same, "matching", "%s and deviation %d (location %s): matching metadata reported as %d", what.c_str(), dev, cl ? "too" : "not", got);
            }
        }
    views<char>(a, ro, what); views<int32_t>(a, ro, what); views<float>(a, ro, what); views<double>(a, ro, what);
    views<std::complex<float>>(a, ro, what); views<std::complex<double>>(a, ro, what);
}
static void e03_model()
{
    // data model arrays: uvw (times, baselines, 3), visibilities and weights (times, baselines, channels, pols)
    const int kind = mc::choose(3, "kind");
    const sdp_MemType type = TY[mc::choose(6, "type")];
    const sdp_MemLocation loc = mc::flip("gpu") ? SDP_MEM_GPU : SDP_MEM_CPU;
    const Layout lay = (Layout) mc::choose(5, "layout");
    if (lay == L_ODD && tsize(type) < 2) mc::infeasible();
    const int want_nd = kind == 0 ? 3 : 4;
    const int nd = want_nd - 1 + mc::choose(3, "ndim");
    Shape s;
    s.push_back(mc::pick({1, 2}, "times"));
    s.push_back(mc::pick({1, 3}, "baselines"));
    if (kind == 0) { if (nd > 2) s.push_back(mc::pick({1, 2, 3, 4}, "coords")); }
    else
    {
        s.push_back(mc::pick({1, 2}, "channels"));
        if (nd > 3) s.push_back(mc::pick({0, 1, 2, 3, 4, 5}, "pols"));
    }
    while ((int) s.size() < nd) s.push_back(1);
    Arr a(type, s, lay, loc);
    const bool cx = type == SDP_MEM_COMPLEX_FLOAT || type == SDP_MEM_COMPLEX_DOUBLE;
    const bool fl = type == SDP_MEM_FLOAT || type == SDP_MEM_DOUBLE;
    const char* kn = kind == 0 ? "uvw" : kind == 1 ? "vis" : "weights";
    const std::string what = mc::strf("%s: %s array %s, layout %d, %s", kn, tname(type), shape_str(s).c_str(), lay, loc ? "GPU" : "CPU");
    mc::state(what.data(), what.size());
    mc::context("data model check of %s", kn);
    auto g = [&](int d) { return d < nd ? s[d] : 1; };
    // integer weights: the documentation asks for real values, the code for values that are not complex
    const int type_ok = kind == 0 ? fl : kind == 1 ? cx : (cx ? 0 : fl ? 1 : -1);
    for (int et = 0; et < 7; ++et)
        for (int el = 0; el < 2; ++el)
            for (int dev = 0; dev < 9; ++dev)
                for (int prior = 0; prior < 2; ++prior)
                {
                    int64_t x[4] = {g(0), g(1), g(2), g(3)};
                    if (dev) x[(dev - 1) / 2] += (dev - 1) % 2 ? 1 : -1;
                    if (kind == 0 && dev > 4) continue;
                    const sdp_MemType expect = et < 6 ? TY[et] : SDP_MEM_VOID;
                    sdp_Error st = prior ? SDP_ERR_RUNTIME : SDP_SUCCESS;
                    mc::calls();
                    if (kind == 0) sdp_data_model_check_uvw(a.mem, expect, (sdp_MemLocation) el, x[0], x[1], &st);
                    else if (kind == 1) sdp_data_model_check_vis(a.mem, expect, (sdp_MemLocation) el, x[0], x[1], x[2], x[3], &st);
                    else sdp_data_model_check_weights(a.mem, expect, (sdp_MemLocation) el, x[0], x[1], x[2], x[3], &st);
                    if (prior) { MC_CHECK(st == SDP_ERR_RUNTIME, mc::strf("%s/prior", kn), "%s: an earlier error was replaced by %d", kn, st); continue; }
                    Judge j;
                    j.need3(type_ok, BAD_TYPE);
                    if (expect != SDP_MEM_VOID) j.need(expect == type, BAD_TYPE);
                    j.need(nd == want_nd, BAD_ARG);
                    j.need(el == (int) loc, BAD_LOC);
                    j.need(!dev, BAD_ARG);
                    if (kind == 0) j.need(nd == 3 && s[2] == 3, BAD_ARG);
                    j.need3(contiguous(a), BAD_ARG);
                    std::string w = j.wrong(st);
                    MC_CHECK(w.empty(), mc::strf("%s", kn), "%s; expected type %s at %d, shape deviation %d: %s", what.c_str(), tname(expect), el, dev, w.c_str());
                }
    // metadata
    const int nout = kind == 0 ? 4 : 6;
    for (int leave = -2; leave < nout; ++leave)   // -2: every output given, -1: none, else all but one
        for (int prior = 0; prior < 2; ++prior)
        {
            sdp_MemType t = SDP_MEM_VOID; sdp_MemLocation l = (sdp_MemLocation) 7;
            int64_t o[4] = {-9, -9, -9, -9};
            auto give = [&](int k) { return leave == -2 || (leave >= 0 && leave != k); };
            sdp_Error st = prior ? SDP_ERR_RUNTIME : SDP_SUCCESS;
            sdp_MemType* pt = give(0) ? &t : nullptr; sdp_MemLocation* pl = give(1) ? &l : nullptr;
            int64_t* po[4];
            for (int k = 0; k < 4; ++k) po[k] = give(2 + k) ? &o[k] : nullptr;
            mc::calls();
            if (kind == 0) sdp_data_model_get_uvw_metadata(a.mem, pt, pl, po[0], po[1], &st);
            else if (kind == 1) sdp_data_model_get_vis_metadata(a.mem, pt, pl, po[0], po[1], po[2], po[3], &st);
            else sdp_data_model_get_weights_metadata(a.mem, pt, pl, po[0], po[1], po[2], po[3], &st);
            if (prior)
            {
                MC_CHECK(st == SDP_ERR_RUNTIME, mc::strf("%s/meta/prior", kn), "%s metadata: an earlier error was replaced by %d", kn, st);
                MC_CHECK(t == SDP_MEM_VOID && (int) l == 7 && o[0] == -9 && o[1] == -9 && o[2] == -9 && o[3] == -9, mc::strf("%s/meta/prior", kn), "%s metadata written after an earlier error", kn);
                continue;
            }
            Judge j;
            j.need3(type_ok, BAD_TYPE);
            j.need(nd == want_nd, BAD_ARG);
            if (nd != want_nd) j.codes.insert(SDP_ERR_RUNTIME);
            if (kind == 0) j.need(nd == 3 && s[2] == 3, BAD_ARG);
            // visibilities have one or four polarisations; checked where the number is asked for
            if (kind == 1 && nd == 4) j.need3(s[3] == 1 || s[3] == 4 ? 1 : po[3] ? 0 : -1, BAD_ARG);
            std::string w = j.wrong(st);
            MC_CHECK(w.empty(), mc::strf("%s/meta", kn), "metadata of %s: %s", what.c_str(), w.c_str());
            if (st) continue;
            MC_CHECK(!pt || t == type, mc::strf("%s/meta/value", kn), "metadata of %s: type %d", what.c_str(), t);
            MC_CHECK(!pl || l == loc, mc::strf("%s/meta/value", kn), "metadata of %s: location %d", what.c_str(), l);
            for (int k = 0; k < nout - 2; ++k)
                MC_CHECK(!po[k] || o[k] == s[k], mc::strf("%s/meta/value", kn), "metadata of %s: size %d is %ld", what.c_str(), k, (long) o[k]);
        }
}
static void run_e03() { if (mc::flip("model")) e03_model(); else e03_basic(); }

// ------------------------------------------------------------------ U01 log messages
static std::string in_child(const std::function<void(FILE*)>& f, int* rc)
{
    int fd[2];
    if (pipe(fd)) abort();
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0)
    {
        close(fd[0]);
        FILE* o = fdopen(fd[1], "w");
        f(o);
        fflush(o);
        _exit(0);
    }
    close(fd[1]);
    std::string s; char b[4096]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, n);
    close(fd[0]);
    waitpid(p, rc, 0);
    return s;
}
static std::string stamp(long sec, long us)
{
    time_t t = sec; struct tm m; gmtime_r(&t, &m);
    return mc::strf("%04d-%02d-%02dT%02d:%02d:%02d.%03dZ", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec, (int) (us / 1000));
}
static void run_u01()
{
    static const char* levels[] = {"UNDEF", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"};
    static const char* values[] = {nullptr, "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "debug", "info", "warning", "error", "critical",
        "", "7", "nonsense", "D"};
    static const int thr[] = {2, 1, 2, 3, 4, 5, 1, 2, 3, 4, 5, -1, -1, -1, -1};
    static const long times[] = {0, 951782399, 4102444799, 951868800, 1700000000, 2147483647};
    const int v = mc::choose(15, "value");
    const int tm = mc::choose(mc::quick() ? 3 : 6, "time");
    const int frac = mc::choose(3, "fraction");
    const long us[] = {0, 999999, 999000};
    const int tick = mc::choose(mc::quick() ? 2 : 3, "tick");           // the wall clock moves on between looks
    const long step[] = {0, 400, 1500};
    const int msg = mc::choose(4, "message");
    // every sequence of two levels first, then all of them
    const int l1 = mc::range(1, 5, "first"), l2 = mc::quick() ? 5 : mc::range(1, 5, "second");
    std::vector<int> seq = {l1, l2, 1, 2, 3, 4, 5};
    mc::context("log message");
    std::vector<std::string> body = {"plain", "d -7 x 0x1f f 2.50 %", std::string(3000, 'q'), ""};
    int rc = 0;
    std::string out = in_child([&](FILE* o)
    {
        if (values[v]) setenv("SKA_SDP_FUNC_LOG_LEVEL", values[v], 1); else unsetenv("SKA_SDP_FUNC_LOG_LEVEL");
        for (size_t k = 0; k < seq.size(); ++k)
        {
            VirtualTime vt(5, times[tm]);
            vclock::wall_us = us[frac];
            vclock::wall_step_us = step[tick];
            sdp_LogLevel L = (sdp_LogLevel) seq[k];
            if (msg == 0) sdp_log_message(L, o, "fun", "dir/f.c", 42 + (int) k, "plain");
            else if (msg == 1) sdp_log_message(L, o, "fun", "dir/f.c", 42 + (int) k, "d %d x %#x f %.2f %%", -7, 31, 2.5);
            else if (msg == 2) sdp_log_message(L, o, "fun", "dir/f.c", 42 + (int) k, "%s", body[2].c_str());
            else sdp_log_message(L, o, "fun", "dir/f.c", 42 + (int) k, "%s", "");
        }
    }, &rc);
    mc::calls((long) seq.size());
    MC_CHECK(WIFEXITED(rc) && WEXITSTATUS(rc) == 0, "crash", "logging ended the process");
    std::vector<std::string> lines;
    size_t p = 0;
    while (p < out.size()) { size_t e = out.find('\n', p); if (e == std::string::npos) e = out.size(); lines.push_back(out.substr(p, e - p)); p = e + 1; }
    MC_CHECK(out.empty() || out.back() == '\n', "format", "last line is not terminated");
    // an unknown value leaves the threshold open, but it is one threshold
    std::vector<int> ok;
    for (int t = 1; t <= 5; ++t) if (thr[v] < 0 || thr[v] == t) ok.push_back(t);
    std::string why;
    bool any = false;
    for (int t : ok)
    {
        size_t k = 0;
        std::string w;
        for (size_t i = 0; i < seq.size() && w.empty(); ++i)
        {
            if (seq[i] < t) continue;
            if (k >= lines.size()) { w = mc::strf("message %zu of level %s is missing", i, levels[seq[i]]); break; }
            const std::string& l = lines[k++];
            const std::string tail = mc::strf("|%s||fun|dir/f.c#%d|| ", levels[seq[i]], 42 + (int) i) + body[msg];
            if (l.size() < tail.size() || l.compare(l.size() - tail.size(), tail.size(), tail)) { w = mc::strf("message %zu of level %s reads '%.100s'", i, levels[seq[i]], l.c_str()); break; }
            std::string head = l.substr(0, l.size() - tail.size());
            // any moment the wall clock showed during the call is right
            bool good = false;
            for (int n = 0; n <= 4 && !good; ++n)
            {
                long u = us[frac] + n * step[tick];
                good = head == "1|" + stamp(times[tm] + u / 1000000, u % 1000000);
            }
            if (!good) w = mc::strf("time %s for %s", head.c_str(), stamp(times[tm], us[frac]).c_str());
        }
        if (w.empty() && k != lines.size()) w = mc::strf("'%.80s' should be suppressed", lines[k].c_str());
        if (w.empty()) any = true;
        why = w;
    }
    mc::state(out.data(), out.size());
    MC_CHECK(any, "log", "level '%s': %s", values[v] ? values[v] : "(unset)", why.c_str());
}

// ------------------------------------------------------------------ U03 sky coordinates
static void run_u03()
{
    static const double vals[] = {0.0, -0.0, 1.5, -1e300, INFINITY, NAN, 5e-324};
    static const double vals2[] = {2000.0, 0.0, 1950.0, -4712.5, NAN};
    const std::string types[] = {"", "icrs", "x", std::string(1000, 'z'), "with space\n\x80"};
    auto same = [](double a, double b) { return memcmp(&a, &b, 8) == 0 || (a != a && b != b); };
    struct M { bool live; std::string type; double epoch, c[3]; sdp_SkyCoord* h; };
    M m[2] = {{false}, {false}};
    const int depth = mc::quick() ? 3 : 4;
    int salt = 0;
    std::string bad;
    for (int i = 0; i < depth && bad.empty(); ++i)
    {
        const int op = mc::choose(5, "op");
        const int w = mc::choose(2, "which");
        mc::calls();
        mc::context("sky coordinate op %d", op);
        if (op == 0)
        {
            if (m[w].live) sdp_sky_coord_free(m[w].h);
            const std::string& t = types[mc::choose(5, "type")];
            char* tmp = strdup(t.c_str());      // the caller's string goes away
            const int k = mc::choose(3, "values");
            for (int d = 0; d < 3; ++d) m[w].c[d] = vals[(k * 3 + d + salt) % 7];
            m[w].h = sdp_sky_coord_create(tmp, m[w].c[0], m[w].c[1], m[w].c[2]);
            memset(tmp, '#', strlen(tmp));
            free(tmp);
            m[w].live = true; m[w].type = t; m[w].epoch = 2000.0;
            ++salt;
        }
        else if (op == 1) { double e = vals2[mc::choose(5, "epoch")]; sdp_sky_coord_set_epoch(m[w].live ? m[w].h : nullptr, e); if (m[w].live) m[w].epoch = e; }
        else if (op == 2) { sdp_sky_coord_free(m[w].live ? m[w].h : nullptr); m[w].live = false; }
        else if (op == 3)
        {
            static const int dims[] = {-1, 3, 4, INT32_MIN, INT32_MAX};
            int d = dims[mc::choose(5, "dim")];
            double x = sdp_sky_coord_value(m[w].live ? m[w].h : nullptr, d);
            if (!same(x, 0.0)) bad = mc::strf("value of dimension %d is %g", d, x);
        }
        for (int k = 0; k < 2 && bad.empty(); ++k)
        {
            sdp_SkyCoord* h = m[k].live ? m[k].h : nullptr;
            for (int d = 0; d < 3; ++d)
                if (!same(sdp_sky_coord_value(h, d), h ? m[k].c[d] : 0.0)) bad = mc::strf("coordinate %d is %g, was set to %g", d, sdp_sky_coord_value(h, d), m[k].c[d]);
            if (!same(sdp_sky_coord_epoch(h), h ? m[k].epoch : 0.0)) bad = mc::strf("epoch is %g, was set to %g", sdp_sky_coord_epoch(h), m[k].epoch);
            const char* t = sdp_sky_coord_type(h);
            if (h ? (!t || m[k].type != t) : t != nullptr) bad = "type string differs from the one given";
        }
    }
    uint64_t hs = mc::fnv(&salt, sizeof salt);
    for (auto& x : m) if (x.live) { hs = mc::fnv(&x.epoch, 8, hs); hs = mc::fnv(x.c, 24, hs); hs = mc::fnv(x.type.data(), x.type.size(), hs); }
    mc::state(hs);
    for (auto& x : m) if (x.live) sdp_sky_coord_free(x.h);
    MC_CHECK(bad.empty(), "sky", "%s", bad.c_str());
}

static void body()
{
    if (mc::prop("T01")) run_t01();
    else if (mc::prop("E03")) run_e03();
    else if (mc::prop("U01")) run_u01();
    else if (mc::prop("U03")) run_u03();
}
MC_MAIN(body)
