// Exhaustive choice-tree explorer (stateless model checking of the real code).
//
// A harness body calls mc::choose(n) wherever the environment, the caller or
// the input may do one of n things.  The explorer runs the body once for every
// sequence of choices (depth-first, complete), each time against the real
// library compiled from /repo.  Worker processes claim disjoint subtrees; a
// worker that crashes (signal, sanitizer report, exit()) is itself a violation
// of the execution it was running, and exploration resumes after it.
#pragma once
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {

static const int MAX_DEPTH = 4096;
static const int MAX_WORKERS = 64;
static const size_t CLAIM_SLOTS = 1u << 24;

struct Abort {};   // end this execution (after a violation)
struct Skip {};    // end this execution: not owned / pruned / infeasible

struct Shared
{
    volatile int depth;                 // number of choices made so far
    volatile int path[MAX_DEPTH];
    volatile int arity[MAX_DEPTH];
    volatile long prefix_ordinal;
    volatile int prefix_depth_seen;
    volatile long executions, transitions, pruned;
    volatile long step;                 // heartbeat
    volatile int finished;
    volatile int timed_out;
    volatile int owned;
    char key[256];                      // context: what is being executed
    char labels[16384];                 // human readable path
};

struct Violation { std::string key, msg; std::vector<int> path; std::string labels; };

struct Global
{
    std::string prop = "X", tier = "quick", out, replay;
    int workers = 8;
    int claim_depth = 3;
    double deadline = 600;
    double exec_timeout = 180;
    std::function<void()> body;
    bool quick() const { return tier == "quick"; }
    Shared* sh = nullptr;               // this worker's block
    std::atomic<uint64_t>* claims = nullptr;
    bool replaying = false;
    std::vector<int> prefix;            // forced choices for this execution
    std::unordered_set<uint64_t> states;
    std::map<std::string, Violation> viols;
    std::vector<std::string> samples;
    std::map<std::string, long> counters;
    std::unordered_map<const char*, int> arity;   // choice point -> most alternatives it had
    std::map<std::string, int> named;
    FILE* vf = nullptr;
    std::string cur_labels;
    double t0 = 0;
    std::string prefix_key;
    bool claimed_here = false;
};
inline Global& G() { static Global g; return g; }

inline double now()
{
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* c = (const unsigned char*) p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline std::string esc(const std::string& s)
{
    std::string o;
    for (char ch : s)
    {
        unsigned char c = (unsigned char) ch;
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) o += ' ';
        else o += (char) c;
    }
    return o;
}

inline bool quick() { return G().quick(); }
inline bool prop(const char* p) { return G().prop == p; }

// Decide ownership of the subtree identified by the first claim_depth choices.
inline void claim()
{
    Global& g = G();
    Shared* s = g.sh;
    if (g.replaying) return;
    const int d = g.claim_depth;
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < d && i < s->depth; ++i)
    {
        int v = s->path[i];
        h = fnv(&v, sizeof v, h);
        int a = s->arity[i];
        h = fnv(&a, sizeof a, h);
    }
    // the pattern of the prefix decides the claim slot; consecutive executions
    // with the same prefix belong to the same subtree and are already ours.
    if (g.claimed_here && s->prefix_ordinal == (long) (h >> 1)) return;
    if (h == 0) h = 1;
    for (size_t slot = h % CLAIM_SLOTS;; slot = (slot + 1) % CLAIM_SLOTS)
    {
        uint64_t expect = 0;
        if (g.claims[slot].compare_exchange_strong(expect, h))
        {
            g.claimed_here = true;
            s->prefix_ordinal = (long) (h >> 1);
            return;
        }
        if (expect == h) break; // claimed by somebody else
    }
    s->owned = 0;
    throw Skip();
}

inline int choose(int n, const char* label = nullptr)
{
    Global& g = G();
    Shared* s = g.sh;
    if (n <= 0) { fprintf(stderr, "mc: choose(%d) %s\n", n, label ? label : ""); abort(); }
    int d = s->depth;
    if (d >= MAX_DEPTH) { fprintf(stderr, "mc: depth overflow\n"); abort(); }
    int c = 0;
    if (d < (int) g.prefix.size()) c = g.prefix[d];
    if (c >= n)
    {
        fprintf(stderr, "mc: nondeterministic choice tree at depth %d (%d >= %d)\n", d, c, n);
        abort();
    }
    s->path[d] = c;
    s->arity[d] = n;
    s->depth = d + 1;
    s->step++;
    if (n > 1 || label)
    {
        char b[160];
        snprintf(b, sizeof b, "%s%s=%d", g.cur_labels.empty() ? "" : " ", label ? label : "c", c);
        if (g.cur_labels.size() < 12000) g.cur_labels += b;
    }
    int& most = g.arity[label];
    if (n > most)
    {
        most = n;
        int& b = g.named[label ? label : "choice"];
        if (n > b) b = n;
    }
    if (d + 1 == g.claim_depth) claim();
    return c;
}
template<typename T> inline T pick(std::initializer_list<T> l, const char* label = nullptr)
{
    return *(l.begin() + choose((int) l.size(), label));
}
template<typename T> inline T pick(const std::vector<T>& l, const char* label = nullptr)
{
    return l[choose((int) l.size(), label)];
}
inline bool flip(const char* label = nullptr) { return choose(2, label) == 1; }
// choose lo..hi inclusive
inline int range(int lo, int hi, const char* label = nullptr) { return lo + choose(hi - lo + 1, label); }

inline void infeasible() { throw Skip(); }

inline void context(const char* fmt, ...)
{
    va_list a; va_start(a, fmt);
    vsnprintf(G().sh->key, sizeof(G().sh->key), fmt, a);
    va_end(a);
}
inline void calls(long n = 1) { G().sh->transitions += n; }
inline void state(uint64_t h) { G().states.insert(h); }
inline void state(const void* p, size_t n) { G().states.insert(fnv(p, n)); }
inline void count(const char* name, long n = 1) { G().counters[name] += n; }
inline void sample(const std::string& s) { if (G().samples.size() < 3) G().samples.push_back(s); }

inline std::vector<int> cur_path()
{
    Shared* s = G().sh;
    std::vector<int> v;
    for (int i = 0; i < s->depth; ++i) v.push_back((int) s->path[i]);
    return v;
}
inline std::string strf(const char* fmt, ...)
{
    char b[2048];
    va_list a; va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    return b;
}

inline void write_viol(FILE* f, const Violation& v)
{
    fprintf(f, "V\t%s\t%s\t%s\t", esc(v.key).c_str(), esc(v.msg).c_str(), esc(v.labels).c_str());
    for (size_t i = 0; i < v.path.size(); ++i) fprintf(f, "%s%d", i ? "," : "", v.path[i]);
    fprintf(f, "\n");
    fflush(f);
}

// Record a violation for the current execution and go on.
inline void note(const std::string& key, const std::string& msg)
{
    Global& g = G();
    if (g.viols.count(key)) return;
    Violation v; v.key = key; v.msg = msg; v.path = cur_path(); v.labels = g.cur_labels;
    g.viols[key] = v;
    if (g.vf) write_viol(g.vf, v);
}
// Record and end the execution.
inline void fail(const std::string& key, const char* fmt, ...)
{
    char b[2048];
    va_list a; va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    note(key, b);
    throw Abort();
}
#define MC_CHECK(cond, key, ...) do { if (!(cond)) mc::fail((key), __VA_ARGS__); } while (0)

// Run the body once with the given forced prefix. Returns false if skipped.
inline bool run_once(const std::vector<int>& prefix)
{
    Global& g = G();
    Shared* s = g.sh;
    g.prefix = prefix;
    g.cur_labels.clear();
    s->depth = 0;
    s->owned = 1;
    s->key[0] = 0;
    bool ok = true;
    try { g.body(); }
    catch (Abort&) { ok = true; }
    catch (Skip&) { ok = false; }
    if (ok && s->depth < g.claim_depth)
    {
        // shorter than a claim prefix: claim by whole path (may be re-run by others)
        int save = g.claim_depth;
        try { g.claim_depth = s->depth; claim(); } catch (Skip&) { ok = false; }
        g.claim_depth = save;
        g.claimed_here = false;
    }
    return ok;
}
inline bool next_prefix(Shared* s, std::vector<int>& prefix)
{
    int d = s->depth;
    while (d > 0 && s->path[d - 1] + 1 >= s->arity[d - 1]) --d;
    if (d == 0) return false;
    prefix.clear();
    for (int i = 0; i < d - 1; ++i) prefix.push_back((int) s->path[i]);
    prefix.push_back(s->path[d - 1] + 1);
    return true;
}

inline void worker_loop(bool resume, const std::string& statefile)
{
    Global& g = G();
    Shared* s = g.sh;
    std::vector<int> prefix;
    g.vf = fopen((statefile + ".viol").c_str(), "a");
    bool more = true;
    g.claimed_here = false;
    if (resume)
    {
        g.claimed_here = s->owned && s->depth >= g.claim_depth;
        more = next_prefix(s, prefix);
    }
    while (more)
    {
        if (now() - g.t0 > g.deadline) { s->timed_out = 1; break; }
        bool ok = run_once(prefix);
        if (ok)
        {
            s->executions++;
            if (g.samples.size() < 2 && (s->executions == 1 || s->executions == 50))
                g.samples.push_back(g.cur_labels);
        }
        else s->pruned++;
        s->step++;
        more = next_prefix(s, prefix);
    }
    FILE* f = fopen((statefile + ".stat").c_str(), "a");
    for (uint64_t h : g.states) fprintf(f, "S\t%llx\n", (unsigned long long) h);
    for (auto& c : g.counters) fprintf(f, "C\t%s\t%ld\n", c.first.c_str(), c.second);
    for (auto& c : g.named) fprintf(f, "B\t%s\t%d\n", c.first.c_str(), c.second);
    for (auto& x : g.samples) fprintf(f, "P\t%s\n", esc(x).c_str());
    fclose(f);
    fclose(g.vf);
    s->finished = 1;
    fflush(nullptr);
    _exit(0);
}

inline std::vector<int> parse_path(const std::string& t)
{
    std::vector<int> v;
    const char* p = t.c_str();
    while (*p)
    {
        char* e; long x = strtol(p, &e, 10);
        if (e == p) break;
        v.push_back((int) x);
        p = (*e == ',') ? e + 1 : e;
    }
    return v;
}

inline std::string last_lines(const std::string& file)
{
    FILE* f = fopen(file.c_str(), "r");
    if (!f) return "";
    std::string keep; char b[1024];
    while (fgets(b, sizeof b, f))
    {
        if (strstr(b, "ERROR: AddressSanitizer") || strstr(b, "runtime error") || strstr(b, "SCHED:"))
        {
            keep = b;
        }
        else if (strstr(b, "    #") && strstr(b, "/src/ska-sdp-func/") && keep.size() && keep.size() < 400)
        {
            keep += b;
        }
    }
    fclose(f);
    return keep;
}

inline int main_explore(int argc, char** argv, const std::function<void()>& body)
{
    Global& g = G();
    g.body = body;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") g.prop = val();
        else if (a == "--tier") g.tier = val();
        else if (a == "--out") g.out = val();
        else if (a == "--replay") g.replay = val();
        else if (a == "--workers") g.workers = atoi(val().c_str());
        else if (a == "--deadline") g.deadline = atof(val().c_str());
        else if (a == "--exec-timeout") g.exec_timeout = atof(val().c_str());
    }
    g.t0 = now();
    size_t shsz = sizeof(Shared) * MAX_WORKERS;
    Shared* all = (Shared*) mmap(0, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*) all, 0, shsz);
    if (!g.replay.empty())
    {
        g.sh = all;
        g.replaying = true;
        g.vf = stdout;
        run_once(parse_path(g.replay));
        printf("REPLAY path explored, %zu violation(s)\n%s\n", g.viols.size(), g.cur_labels.c_str());
        return g.viols.empty() ? 0 : 1;
    }
    g.claims = (std::atomic<uint64_t>*) mmap(0, CLAIM_SLOTS * sizeof(uint64_t), PROT_READ | PROT_WRITE,
            MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::string base = g.out.empty() ? std::string("/tmp/mc_") + std::to_string(getpid()) : g.out;
    std::vector<pid_t> pids(g.workers, 0);
    std::vector<int> crashes(g.workers, 0);
    std::vector<long> last_step(g.workers, -1);
    std::vector<double> last_t(g.workers, now());
    std::vector<bool> hung(g.workers, false);
    auto sf = [&](int w) { return base + ".w" + std::to_string(w); };
    for (int w = 0; w < g.workers; ++w)
    {
        unlink((sf(w) + ".viol").c_str());
        unlink((sf(w) + ".stat").c_str());
    }
    fflush(nullptr);
    auto spawn = [&](int w, bool resume)
    {
        pid_t p = fork();
        if (p == 0)
        {
            g.sh = &all[w];
            std::string ef = sf(w) + ".err";
            int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2); dup2(fd, 1); close(fd);
            struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
            worker_loop(resume, sf(w));
        }
        pids[w] = p;
        last_t[w] = now();
    };
    for (int w = 0; w < g.workers; ++w) spawn(w, false);
    int live = g.workers;
    bool truncated = false;
    long crash_total = 0;
    std::vector<Violation> crash_viols;
    std::set<std::string> crash_keys;
    while (live > 0)
    {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0)
        {
            usleep(5000);
            for (int w = 0; w < g.workers; ++w)
            {
                if (!pids[w]) continue;
                long cur = all[w].step;
                if (cur != last_step[w]) { last_step[w] = cur; last_t[w] = now(); }
                else if (now() - last_t[w] > g.exec_timeout && !hung[w])
                {
                    hung[w] = true; kill(pids[w], SIGKILL);
                }
            }
            continue;
        }
        for (int w = 0; w < g.workers; ++w)
        {
            if (pids[w] != p) continue;
            pids[w] = 0;
            if (all[w].finished) { --live; break; }
            // The execution in progress killed the process.
            Shared* s = &all[w];
            Violation v;
            std::string how;
            std::string err = last_lines(sf(w) + ".err");
            if (hung[w]) how = "no progress (hang)";
            else if (WIFSIGNALED(st)) how = "killed by signal " + std::to_string(WTERMSIG(st));
            else how = "process exited with code " + std::to_string(WEXITSTATUS(st));
            if (getenv("MC_DEBUG")) fprintf(stderr, "crash w%d %s\n%s", w, how.c_str(), err.c_str());
            hung[w] = false;
            v.key = std::string("crash:") + s->key;
            v.msg = how + " during " + s->key + ": " + err;
            for (int i = 0; i < s->depth; ++i) v.path.push_back((int) s->path[i]);
            if (crash_keys.insert(v.key).second) crash_viols.push_back(v);
            ++crash_total;
            s->executions++;
            if (++crashes[w] > 40) { truncated = true; --live; break; }
            spawn(w, true);
            break;
        }
    }
    // Merge.
    long execs = 0, trans = 0, pruned = 0;
    for (int w = 0; w < g.workers; ++w)
    {
        execs += all[w].executions; trans += all[w].transitions; pruned += all[w].pruned;
        if (all[w].timed_out) truncated = true;
    }
    std::unordered_set<std::string> states;
    std::map<std::string, long> counters, bounds;
    std::vector<std::string> samples;
    std::map<std::string, Violation> viols;
    auto path_less = [](const std::vector<int>& a, const std::vector<int>& b) { return a < b; };
    for (int w = 0; w < g.workers; ++w)
    {
        FILE* f = fopen((sf(w) + ".stat").c_str(), "r");
        char* line = nullptr; size_t cap = 0; ssize_t n;
        if (f)
        {
            while ((n = getline(&line, &cap, f)) > 0)
            {
                std::string l(line, n - 1);
                if (l[0] == 'S') states.insert(l.substr(2));
                else if (l[0] == 'P') { if (samples.size() < 4) samples.push_back(l.substr(2)); }
                else if (l[0] == 'B')
                {
                    size_t t = l.find('\t', 2);
                    long& b = bounds[l.substr(2, t - 2)];
                    b = std::max(b, atol(l.c_str() + t + 1));
                }
                else if (l[0] == 'C')
                {
                    size_t t = l.find('\t', 2);
                    counters[l.substr(2, t - 2)] += atol(l.c_str() + t + 1);
                }
            }
            fclose(f);
        }
        f = fopen((sf(w) + ".viol").c_str(), "r");
        if (f)
        {
            while ((n = getline(&line, &cap, f)) > 0)
            {
                std::string l(line, n - 1);
                std::vector<std::string> p; size_t i = 0;
                while (true)
                {
                    size_t t = l.find('\t', i);
                    p.push_back(l.substr(i, t == std::string::npos ? t : t - i));
                    if (t == std::string::npos) break;
                    i = t + 1;
                }
                if (p.size() < 5) continue;
                Violation v; v.key = p[1]; v.msg = p[2]; v.labels = p[3]; v.path = parse_path(p[4]);
                auto it = viols.find(v.key);
                if (it == viols.end() || path_less(v.path, it->second.path)) viols[v.key] = v;
            }
            fclose(f);
        }
        free(line);
        unlink((sf(w) + ".stat").c_str());
        unlink((sf(w) + ".viol").c_str());
        unlink((sf(w) + ".err").c_str());
    }
    for (auto& v : crash_viols) if (!viols.count(v.key)) viols[v.key] = v;
    FILE* o = g.out.empty() ? stdout : fopen(g.out.c_str(), "w");
    fprintf(o, "{\"executions\": %ld, \"transitions\": %ld, \"skipped_not_owned_or_pruned\": %ld, "
            "\"distinct_states\": %zu, \"exhausted\": %s, \"crashes\": %ld, \"wall_s\": %.2f,\n",
            execs, trans, pruned, states.size(), truncated ? "false" : "true", crash_total, now() - g.t0);
    fprintf(o, "\"counters\": {");
    bool first = true;
    for (auto& c : counters)
    {
        fprintf(o, "%s\"%s\": %ld", first ? "" : ", ", esc(c.first).c_str(), c.second); first = false;
    }
    fprintf(o, "},\n\"choice_points\": {");
    first = true;
    for (auto& c : bounds)
    {
        fprintf(o, "%s\"%s\": %ld", first ? "" : ", ", esc(c.first).c_str(), c.second); first = false;
    }
    fprintf(o, "},\n\"samples\": [");
    for (size_t i = 0; i < samples.size(); ++i)
        fprintf(o, "%s\"%s\"", i ? ", " : "", samples[i].c_str());
    fprintf(o, "],\n\"violations\": [");
    first = true;
    for (auto& kv : viols)
    {
        const Violation& v = kv.second;
        fprintf(o, "%s\n {\"key\": \"%s\", \"msg\": \"%s\", \"labels\": \"%s\", \"path\": [", first ? "" : ",",
                esc(v.key).c_str(), esc(v.msg).c_str(), v.labels.c_str());
        for (size_t i = 0; i < v.path.size(); ++i) fprintf(o, "%s%d", i ? "," : "", v.path[i]);
        fprintf(o, "]}");
        first = false;
    }
    fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
    return viols.empty() ? 0 : 1;
}

} // namespace mc
#define MC_MAIN(body) int main(int argc, char** argv) { return mc::main_explore(argc, argv, body); }
