#include "harness/sched.hpp"
#include <cerrno>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <unistd.h>

#include <ctime>
extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
}

namespace sched {

Config cfg;
Report rep;

static const int MAXT = 8;
typedef uint32_t Clk;
struct VC { Clk c[MAXT]; };
static void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

enum State { IDLE, READY, BLOCKED, DONE };
struct Thread
{
    sem_t sem;
    pthread_t id;
    bool created = false;
    State state = IDLE;
    const void* wait = nullptr;
    std::function<void()> work;
    VC vc;
    int level = 0;          // nested parallel regions
    long loop_no = 0;       // work-shares met in this region
    bool stop = false;
};
static Thread th[MAXT];
static thread_local int me = -1;
static thread_local int in_rt = 0;         // inside this file: its own accesses do not count
struct In { In() { ++in_rt; } ~In() { --in_rt; } };
static int team = 0;                    // threads in the current team; 0: no team active
static bool user_mode = false;          // team of user threads, not of a parallel region
static bool explore = false, detect = false;
static int budget = 0;
static jmp_buf escape;
static bool stuck = false;
static std::map<const void*, VC>* sync_vc;         // release clocks of locks, atomics...
static std::map<const void*, int>* owner;          // held locks
static std::map<const void*, int>* depth_of;       // nesting count
struct Share { long next, end, incr, chunk; int mode; int left; bool up; };
static std::map<long, Share>* shares;
static std::map<long, int>* singles;
static int barrier_count = 0; static VC barrier_vc;
static uint32_t epoch = 1;
static long steps = 0;

struct Quiet { int save; Quiet() : save(me) { me = -1; } ~Quiet() { me = save; } };   // our own allocations are not the program's

// ------------------------------------------------------------------ shadow memory
// 'mixed': accessed in parts; otherwise only column 0 is used, for all 8 bytes.
struct Cell { bool mixed; Clk w[4][8], r[4][8], a[4][8]; };
static const size_t SLOTS = 1u << 19;
struct Slot { uint64_t key; Cell* cell; };
static Slot* table = nullptr;
static std::vector<Cell*>* pool;
static size_t pool_used = 0;
static std::set<std::string>* seen_races;

static void shadow_reset()
{
    if (!table)
    {
        table = (Slot*) calloc(SLOTS, sizeof(Slot));
        pool = new std::vector<Cell*>;
        seen_races = new std::set<std::string>;
    }
    if (pool_used) { __real_memset((void*) table, 0, SLOTS * sizeof(Slot)); }
    pool_used = 0;
    ++epoch;
}
static Cell* cell(uint64_t g, bool make)
{
    size_t h = (g * 0x9E3779B97F4A7C15ull) >> 45;
    for (;; h = (h + 1) & (SLOTS - 1))
    {
        if (table[h].key == g) return table[h].cell;
        if (!table[h].key)
        {
            if (!make) return nullptr;
            if (pool_used >= SLOTS * 3 / 4) return nullptr;   // shadow full: reported by run()
            if (pool_used == pool->size()) pool->push_back((Cell*) malloc(sizeof(Cell)));
            Cell* c = (*pool)[pool_used++];
            __real_memset((void*) c, 0, sizeof *c);
            table[h].key = g; table[h].cell = c;
            return c;
        }
    }
}
enum Kind { READ = 0, WRITE = 1, ATOMIC_R = 2, ATOMIC_W = 3 };

static std::string where(const void* pc)
{
    char cmd[256], out[400] = "";
    FILE* m = fopen("/proc/self/maps", "r");
    unsigned long base = 0; char line[512];
    if (m) { if (fgets(line, sizeof line, m)) base = strtoul(line, 0, 16); fclose(m); }
    snprintf(cmd, sizeof cmd, "addr2line -s -e /proc/%d/exe 0x%lx 2>/dev/null", (int) getpid(), (unsigned long) pc - base - 1);
    FILE* p = popen(cmd, "r");
    if (p) { if (!fgets(out, sizeof out, p)) out[0] = 0; pclose(p); }
    for (char* c = out; *c; ++c) if (*c == '\n' || *c == ' ') { *c = 0; break; }
    return out;
}
static void race(const void* pc, Kind k, int t, const char* with)
{
    Quiet q;
    static std::set<const void*> pcs;
    if (rep.races.size() >= 8 || !pcs.insert(pc).second) { if (rep.races.empty()) rep.races.push_back("(seen before)"); return; }
    rep.races.push_back(std::string(k == WRITE || k == ATOMIC_W ? "write" : "read") + " at " + where(pc) + " by thread " + std::to_string(q.save) + " concurrent with a " +
        with + " by thread " + std::to_string(t));
}
static void access(const void* addr, size_t n, Kind k, const void* pc)
{
    if (me < 0 || in_rt || !detect || team < 2) return;
    In in;
    const int t = me;
    if (n == 0) return;
    // own or other threads' stacks (only the first thread's is shared: it is the caller's)
    rep.accesses++;
    const VC& v = th[t].vc;
    uint64_t a = (uint64_t) addr;
    if (a < 4096) return;
    while (n > 0)
    {
        const uint64_t g = a >> 3; int lo = (int) (a & 7), hi = n < (size_t) (8 - lo) ? lo + (int) n : 8;
        Cell* c = cell(g, true);
        if (!c) { if (rep.errors.empty()) { Quiet q; rep.errors.push_back("shadow memory full"); } return; }
        if (hi - lo < 8 && !c->mixed)
        {
            c->mixed = true;
            for (int u = 0; u < 4; ++u) for (int b = 1; b < 8; ++b) { c->w[u][b] = c->w[u][0]; c->r[u][b] = c->r[u][0]; c->a[u][b] = c->a[u][0]; }
        }
        for (int b = lo; b < (c->mixed ? hi : lo + 1); ++b)
        {
            // already done since the last synchronisation: a later conflicting access is found when it is made
            if ((k == WRITE || k == READ) && c->w[t][b] == v.c[t]) continue;
            if (k == READ && c->r[t][b] == v.c[t]) continue;
            for (int u = 0; u < team; ++u) if (u != t)
            {
                if (c->w[u][b] > v.c[u]) { race(pc, k, u, "write"); goto next; }
                if ((k == READ || k == WRITE) && c->a[u][b] > v.c[u]) { race(pc, k, u, "atomic write"); goto next; }
                if ((k == WRITE || k == ATOMIC_W) && c->r[u][b] > v.c[u]) { race(pc, k, u, "read"); goto next; }
            }
            if (k == WRITE) c->w[t][b] = v.c[t];
            else if (k == READ) c->r[t][b] = v.c[t];
            else if (k == ATOMIC_W) c->a[t][b] = v.c[t];
        }
next:
        n -= hi - lo; a += hi - lo;
    }
}
static void forget(const void* p, size_t n)
{
    if (me < 0 || in_rt || !detect || team < 2 || !p) return;
    In in;
    for (uint64_t g = (uint64_t) p >> 3; g < ((uint64_t) p + n + 7) >> 3; ++g)
    {
        Cell* c = cell(g, false);
        if (c) __real_memset((void*) c, 0, sizeof *c);
    }
}

// ------------------------------------------------------------------ scheduling
static void switch_to(int n)
{
    In in;
    const int m = me;
    if (n == m) return;
    rep.switches++;
    sem_post(&th[n].sem);
    while (sem_wait(&th[m].sem) && errno == EINTR) {}
    if (m == 0 && stuck) longjmp(escape, 1);
}
static int ask(int n)
{
    In in;
    if (n < 2) return 0;
    rep.choices++;
    Quiet q;
    return cfg.choose ? cfg.choose(n) : 0;
}
// All ready threads, in a fixed order starting after 'from'.
static int ready(int* l, int from)
{
    In in;
    int n = 0;
    for (int i = 0; i < team; ++i) { int t = (from + i) % team; if (th[t].state == READY) l[n++] = t; }
    return n;
}
static void deadlock()
{
    std::string s = "no thread can go on:";
    for (int i = 0; i < team; ++i) if (th[i].state == BLOCKED) s += " thread " + std::to_string(i) + " waits";
    { Quiet q; rep.errors.push_back(s); }
    stuck = true;
    if (me == 0) longjmp(escape, 1);
    sem_post(&th[0].sem);
    for (;;) pause();
}
static void pass_on()   // the current thread cannot go on: choose another
{
    int l[MAXT], n = ready(l, me);
    if (!n) deadlock();
    switch_to(l[explore ? ask(n) : 0]);
}
static void point()     // the current thread could go on; another may be chosen
{
    In in;
    if (me < 0 || !team) return;
    rep.syncs++;
    if (++steps > 2000000) { { Quiet q; rep.errors.push_back("no progress after 2000000 synchronisation operations"); } deadlock(); }
    if (!explore || budget <= 0) return;
    int l[MAXT], n = ready(l, me);
    const int k = ask(n);
    if (k) { --budget; switch_to(l[k]); }
}
static void block(const void* on)
{
    In in;
    th[me].state = BLOCKED; th[me].wait = on;
    pass_on();
}
static void wake(const void* on) { In in; for (int i = 0; i < team; ++i) if (th[i].state == BLOCKED && th[i].wait == on) { th[i].state = READY; th[i].wait = nullptr; } }
static void acquire_vc(const void* o) { In in; auto i = sync_vc->find(o); if (i != sync_vc->end()) join(th[me].vc, i->second); }
static void release_vc(const void* o)
{
    In in;
    Quiet q;
    auto i = sync_vc->find(o);
    if (i == sync_vc->end()) { VC z; __real_memset(&z, 0, sizeof z); i = sync_vc->insert(std::make_pair(o, z)).first; }
    join(i->second, th[q.save].vc);
    th[q.save].vc.c[q.save]++;
}
static void lock(const void* o, bool nested = false)
{
    In in;
    if (me < 0 || !team) { if (o && owner) {} return; }
    point();
    for (;;)
    {
        auto i = owner->find(o);
        if (i == owner->end()) break;
        if (nested && i->second == me) { ++(*depth_of)[o]; return; }
        block(o);
    }
    { Quiet q; (*owner)[o] = q.save; (*depth_of)[o] = 1; }
    acquire_vc(o);
}
static void unlock(const void* o)
{
    In in;
    if (me < 0 || !team) return;
    rep.syncs++;
    auto i = owner->find(o);
    if (i == owner->end() || i->second != me)
    {
        Quiet q; if (rep.errors.size() < 4) rep.errors.push_back("a lock is released by a thread which does not hold it"); return;
    }
    if (--(*depth_of)[o] > 0) return;
    release_vc(o);
    { Quiet q; owner->erase(i); }
    wake(o);
}
static void barrier()
{
    In in;
    if (me < 0 || team < 2 || user_mode || th[me].level > 1) return;
    point();
    if (barrier_count == 0) __real_memset(&barrier_vc, 0, sizeof barrier_vc);
    join(barrier_vc, th[me].vc);
    if (++barrier_count < team) block(&barrier_vc);
    else
    {
        barrier_count = 0;
        for (int i = 0; i < team; ++i) { join(th[i].vc, barrier_vc); th[i].vc.c[i]++; }
        wake(&barrier_vc);
        // any of the threads may be first to go on
        if (explore) { int l[MAXT], n = ready(l, me); switch_to(l[ask(n)]); }
    }
}
static void finish()    // the current thread is at the end of the team's work
{
    In in;
    const int m = me;
    th[m].state = DONE;
    bool all = true;
    for (int i = 0; i < team; ++i) if (th[i].state != DONE) all = false;
    if (all)
    {
        if (m == 0) return;
        sem_post(&th[0].sem);
        return;             // a pool thread goes back to sleep
    }
    int l[MAXT], n = ready(l, m);
    if (!n) deadlock();
    const int k = l[explore ? ask(n) : 0];
    rep.switches++;
    sem_post(&th[k].sem);
    if (m == 0)
    {
        while (sem_wait(&th[0].sem) && errno == EINTR) {}
        if (stuck) longjmp(escape, 1);
    }
}
static void* pool_main(void* p)
{
    const int id = (int) (intptr_t) p;
    for (;;)
    {
        while (sem_wait(&th[id].sem) && errno == EINTR) {}
        me = id;
        th[id].work();
        finish();
        me = -1;
    }
    return nullptr;
}
static void start(int n, const std::vector<std::function<void()>>& work, bool user, const void* site = nullptr)
{
    // caller: the main thread, me == -1 here
    ++in_rt;
    for (int i = 0; i < n; ++i)
    {
        if (!th[i].created)
        {
            sem_init(&th[i].sem, 0, 0);
            th[i].created = true;
            if (i)
            {
                pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8u << 20);
                if (pthread_create(&th[i].id, &at, pool_main, (void*) (intptr_t) i)) { fprintf(stderr, "SCHED: pthread_create\n"); abort(); }
                pthread_attr_destroy(&at);
            }
        }
        th[i].state = READY; th[i].wait = nullptr; th[i].work = work[i]; th[i].level = user ? 0 : 1; th[i].loop_no = 0;
        __real_memset(&th[i].vc, 0, sizeof th[i].vc);
        th[i].vc.c[i] = 1;
    }
    const int region = rep.regions++;
    rep.region_syncs.push_back(0); rep.region_site.push_back(site);
    const long s0 = rep.syncs;
    explore = cfg.focus == region; detect = cfg.detect && (cfg.focus < 0 || cfg.focus == region);
    budget = explore ? cfg.preemptions : 0;
    if (detect) shadow_reset();
    sync_vc->clear(); owner->clear(); depth_of->clear(); shares->clear(); singles->clear();
    barrier_count = 0; user_mode = user; team = n;
    me = 0;
    // who begins?
    if (explore) { int k = ask(n); if (k) switch_to(k); }
    --in_rt;
    th[0].work();
    finish();
    me = -1; team = 0; user_mode = false; explore = detect = false;
    rep.region_syncs[region] = (int) (rep.syncs - s0);
}

bool run(const std::function<void()>& f)
{
    if (!sync_vc)
    {
        sync_vc = new std::map<const void*, VC>; owner = new std::map<const void*, int>; depth_of = new std::map<const void*, int>;
        shares = new std::map<long, Share>; singles = new std::map<long, int>;
    }
    rep = Report();
    steps = 0; stuck = false; team = 0; me = -1; in_rt = 0; user_mode = false; explore = detect = false;
    if (setjmp(escape))
    {
        // the other threads stay where they are: they cannot be used again
        for (int i = 1; i < MAXT; ++i) th[i].created = false;
        me = -1; in_rt = 0; team = 0; explore = detect = false; user_mode = false;
        return false;
    }
    f();
    return rep.errors.empty();
}
void together(const std::vector<std::function<void()>>& f) { start((int) f.size(), f, true); }

// The index of the current work-sharing construct, the same in every thread of the team.
static Share* share(bool fresh, long s, long e, long incr, long chunk, int mode, bool up = true)
{
    In in;
    Thread& t = th[me];
    if (fresh) ++t.loop_no;
    Quiet q;
    auto i = shares->find(t.loop_no);
    if (i == shares->end()) { Share x = {s, e, incr, chunk < 1 ? 1 : chunk, mode, team, up}; i = shares->insert(std::make_pair(t.loop_no, x)).first; }
    return &i->second;
}
// one thread only (no team, nested or user thread)
struct Alone { long next, end, incr; bool done; };
static thread_local Alone alone;
static bool in_team() { return me >= 0 && team > 1 && !user_mode && th[me].level == 1; }

static bool loop_next(long* is, long* ie)
{
    In in;
    if (!in_team()) { if (alone.done) return false; alone.done = true; *is = alone.next; *ie = alone.end; return alone.incr > 0 ? *is < *ie : *is > *ie; }
    point();
    Share* s = share(false, 0, 0, 1, 1, 0);
    const bool left = s->incr > 0 ? s->next < s->end : s->next > s->end;
    if (!left) return false;
    long step = s->chunk * s->incr, stop = s->next + step;
    if (s->incr > 0 ? stop > s->end : stop < s->end) stop = s->end;
    *is = s->next; *ie = stop; s->next = stop;
    return true;
}
static bool loop_start(long st, long en, long incr, long chunk, long* is, long* ie)
{
    if (!in_team()) { alone = {st, en, incr, false}; return loop_next(is, ie); }
    share(true, st, en, incr, chunk, 0);
    return loop_next(is, ie);
}
// static schedules given out by the runtime: thread k takes chunks k, k + team, ...
static thread_local long static_pos;
static bool static_next(long* is, long* ie)
{
    In in;
    if (!in_team()) return loop_next(is, ie);
    Share* s = share(false, 0, 0, 1, 1, 1);
    const long n = s->incr > 0 ? (s->end - s->next + s->incr - 1) / s->incr : (s->next - s->end - s->incr - 1) / -s->incr;
    const long a = static_pos * s->chunk, b = a + s->chunk;
    if (a >= n) return false;
    static_pos += team;
    *is = s->next + a * s->incr; *ie = b >= n ? s->end : s->next + b * s->incr;
    return true;
}
static bool static_start(long st, long en, long incr, long chunk, long* is, long* ie)
{
    if (!in_team()) { alone = {st, en, incr, false}; return loop_next(is, ie); }
    long n = incr > 0 ? (en - st + incr - 1) / incr : (st - en - incr - 1) / -incr;
    if (n < 0) n = 0;
    if (chunk <= 0) chunk = (n + team - 1) / team;
    share(true, st, en, incr, chunk, 1);
    static_pos = me;
    return static_next(is, ie);
}
static void parallel(void (*fn)(void*), void* data, unsigned nt, std::function<void(int)> before = nullptr)
{
    if (me >= 0)      // inside a team or a user thread: one thread (nested parallelism is off)
    {
        const int m = me;
        Alone keep = alone;
        const int lev = th[m].level;
        th[m].level = lev + 2;
        if (before) before(0);
        fn(data);
        th[m].level = lev; alone = keep;
        return;
    }
    int n = nt ? (int) nt : cfg.max_threads;
    if (n > cfg.limit) n = cfg.limit;
    if (n > 4) n = 4;
    if (n < 2 || !sync_vc) { if (before) before(0); fn(data); return; }
    std::vector<std::function<void()>> w(n, [=]() { if (before) before(me); fn(data); });
    start(n, w, false, (const void*) fn);
}
} // namespace sched

using namespace sched;

extern "C" {
// ------------------------------------------------------------------ OpenMP
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { parallel(fn, data, nt); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned nt, unsigned) { parallel(fn, data, nt); return 1; }
void GOMP_barrier() { barrier(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel() { barrier(); return false; }
static int unnamed_lock, atomic_lock;
void GOMP_critical_start() { lock(&unnamed_lock); }
void GOMP_critical_end() { unlock(&unnamed_lock); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock(&atomic_lock); }
void GOMP_atomic_end() { unlock(&atomic_lock); }
bool GOMP_single_start()
{
    if (!in_team()) return true;
    point();
    ++th[me].loop_no;
    Quiet q;
    return ++(*singles)[th[q.save].loop_no] == 1;
}
void GOMP_loop_end() { if (in_team()) barrier(); }
void GOMP_loop_end_nowait() {}
#define DYN(NAME) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); } \
    bool GOMP_loop_##NAME##_next(long* a, long* b) { return loop_next(a, b); } \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) \
    { \
        sched::parallel(fn, d, nt, [=](int) { if (in_team()) share(true, s, e, i, c, 0); else alone = {s, e, i, false}; }); \
    } \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) \
    { return loop_start((long) s, (long) e, (long) i, (long) c, (long*) a, (long*) b); } \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) { return loop_next((long*) a, (long*) b); }
DYN(dynamic) DYN(guided) DYN(nonmonotonic_dynamic) DYN(nonmonotonic_guided)
#define RUN(NAME) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); } \
    bool GOMP_loop_##NAME##_next(long* a, long* b) { return loop_next(a, b); } \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) \
    { \
        sched::parallel(fn, d, nt, [=](int) { if (in_team()) share(true, s, e, i, 1, 0); else alone = {s, e, i, false}; }); \
    }
RUN(runtime) RUN(nonmonotonic_runtime) RUN(maybe_nonmonotonic_runtime)
bool GOMP_loop_static_start(long s, long e, long i, long c, long* a, long* b) { return static_start(s, e, i, c, a, b); }
bool GOMP_loop_static_next(long* a, long* b) { return static_next(a, b); }
unsigned GOMP_sections_start(unsigned count)
{
    long a, b;
    return loop_start(1, (long) count + 1, 1, 1, &a, &b) ? (unsigned) a : 0;
}
static thread_local unsigned section_alone;
unsigned GOMP_sections_next()
{
    if (!in_team()) return 0;
    long a, b;
    return loop_next(&a, &b) ? (unsigned) a : 0;
}
void GOMP_sections_end() { if (in_team()) barrier(); }
void GOMP_sections_end_nowait() {}

int omp_get_max_threads() { return me >= 0 ? 1 : cfg.max_threads; }
int omp_get_num_threads() { return in_team() ? team : 1; }
int omp_get_thread_num() { return in_team() ? me : 0; }
int omp_get_num_procs() { return cfg.max_threads; }
int omp_in_parallel() { return in_team(); }
int omp_get_level() { return in_team(); }
int omp_get_active_level() { return in_team(); }
int omp_get_thread_limit() { return 1024; }
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_num_threads(int n) { if (me < 0) cfg.max_threads = n; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
void omp_set_schedule(int, int) {}
double omp_get_wtime() { return 0; }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { lock(l); }
void omp_unset_lock(void* l) { unlock(l); }
int omp_test_lock(void* l)
{
    if (me < 0 || !team) return 1;
    point();
    if (owner->count(l)) return 0;
    lock(l);
    return 1;
}
void omp_init_nest_lock(void*) {}
void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void* l) { lock(l, true); }
void omp_unset_nest_lock(void* l) { unlock(l); }

// ------------------------------------------------------------------ other locks
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (me >= 0 && team) { lock(m); return 0; } return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (me >= 0 && team) { unlock(m); return 0; } return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (me < 0 || !team) return __real_pthread_mutex_trylock(m);
    point();
    if (owner->count(m)) return EBUSY;
    lock(m);
    return 0;
}
static std::map<const void*, int>* guards;
int __wrap___cxa_guard_acquire(char* g)
{
    if (me < 0 || !team) return *g == 0;
    for (;;)
    {
        if (*g) { acquire_vc(g); return 0; }
        if (!owner->count(g)) break;
        block(g);
    }
    { Quiet q; (*owner)[g] = q.save; }
    return 1;
}
void __wrap___cxa_guard_release(char* g)
{
    *g = 1;
    if (me < 0 || !team) return;
    release_vc(g);
    { Quiet q; owner->erase(g); }
    wake(g);
}
void __wrap___cxa_guard_abort(char* g)
{
    if (me < 0 || !team) return;
    { Quiet q; owner->erase(g); }
    wake(g);
}

// ------------------------------------------------------------------ memory
#define PC __builtin_return_address(0)
// functions of the C library which hand out one buffer for all threads
static struct tm shared_tm;
struct tm* gmtime(const time_t* t) { access(&shared_tm, sizeof shared_tm, WRITE, PC); return gmtime_r(t, &shared_tm); }
struct tm* localtime(const time_t* t) { access(&shared_tm, sizeof shared_tm, WRITE, PC); return localtime_r(t, &shared_tm); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void* p) { access(p, N, READ, PC); } \
    void __tsan_write##N(void* p) { access(p, N, WRITE, PC); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, READ, PC); } \
    void __tsan_unaligned_write##N(void* p) { access(p, N, WRITE, PC); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, READ, PC); } \
    void __tsan_volatile_write##N(void* p) { access(p, N, WRITE, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, READ, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, WRITE, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, WRITE, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, READ, PC); }

static inline void pre(const void* p, size_t n, Kind k, int mo, const void* pc)
{
    if (me < 0 || !team) return;
    point();
    access(p, n, k, pc);
    if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) acquire_vc(p);
    if (k == ATOMIC_W && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) release_vc(p);
}
#define ATOMICS(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int mo) { pre((const void*) p, sizeof(T), ATOMIC_R, mo, PC); return *p; } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { pre((const void*) p, sizeof(T), ATOMIC_W, mo, PC); *p = v; } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { pre((const void*) p, sizeof(T), ATOMIC_W, mo, PC); T o = *p; *p = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { pre((const void*) p, sizeof(T), ATOMIC_W, mo, PC); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { pre((const void*) p, sizeof(T), ATOMIC_W, mo, PC); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { pre((const void*) p, sizeof(T), ATOMIC_W, mo, PC); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { pre((const void*) p, sizeof(T), ATOMIC_W, mo, PC); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { pre((const void*) p, sizeof(T), ATOMIC_W, mo, PC); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { pre((const void*) p, sizeof(T), ATOMIC_W, mo, PC); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) \
    { pre((const void*) p, sizeof(T), ATOMIC_W, mo, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) \
    { pre((const void*) p, sizeof(T), ATOMIC_W, mo, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) \
    { pre((const void*) p, sizeof(T), ATOMIC_W, mo, PC); T o = *p; if (o == e) *p = v; return o; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, READ, PC); access(d, n, WRITE, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, READ, PC); access(d, n, WRITE, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { access(d, n, WRITE, PC); return __real_memset(d, v, n); }
void free(void* p)
{
    if (p && me >= 0 && detect && team > 1)
    {
        const size_t n = malloc_usable_size(p);
        access(p, n, WRITE, PC);      // nobody may still be using it
        forget(p, n);
    }
    __libc_free(p);
}
void* realloc(void* p, size_t n)
{
    if (p && me >= 0 && detect && team > 1) { const size_t o = malloc_usable_size(p); access(p, o, WRITE, PC); forget(p, o); }
    return __libc_realloc(p, n);
}
}
