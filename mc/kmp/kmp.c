/* OpenMP run time for the address-sanitizer flavour, which is compiled with
 * clang (gcc's sanitizer leaves loads of complex values unchecked) while only
 * gcc's OpenMP library is installed.  Every team has one thread, so a work
 * sharing construct gives that thread the whole iteration space. */
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include "omp.h"

typedef struct ident ident_t;
static int level;

int __kmpc_global_thread_num(ident_t* l) { return 0; }
int __kmpc_global_num_threads(ident_t* l) { return 1; }
int __kmpc_bound_thread_num(ident_t* l) { return 0; }
int __kmpc_bound_num_threads(ident_t* l) { return 1; }
void __kmpc_push_num_threads(ident_t* l, int g, int n) {}
void __kmpc_push_proc_bind(ident_t* l, int g, int n) {}
void __kmpc_serialized_parallel(ident_t* l, int g) { level++; }
void __kmpc_end_serialized_parallel(ident_t* l, int g) { level--; }
void __kmpc_barrier(ident_t* l, int g) {}
int __kmpc_cancel_barrier(ident_t* l, int g) { return 0; }
int __kmpc_cancel(ident_t* l, int g, int k) { return 0; }
int __kmpc_cancellationpoint(ident_t* l, int g, int k) { return 0; }
void __kmpc_flush(ident_t* l) {}
int __kmpc_master(ident_t* l, int g) { return 1; }
void __kmpc_end_master(ident_t* l, int g) {}
int __kmpc_masked(ident_t* l, int g, int f) { return f == 0; }
void __kmpc_end_masked(ident_t* l, int g) {}
int __kmpc_single(ident_t* l, int g) { return 1; }
void __kmpc_end_single(ident_t* l, int g) {}
void __kmpc_ordered(ident_t* l, int g) {}
void __kmpc_end_ordered(ident_t* l, int g) {}
void __kmpc_critical(ident_t* l, int g, void* c) {}
void __kmpc_critical_with_hint(ident_t* l, int g, void* c, uint32_t h) {}
void __kmpc_end_critical(ident_t* l, int g, void* c) {}
int __kmpc_reduce(ident_t* l, int g, int n, size_t s, void* d, void (*f)(void*, void*), void* c) { return 1; }
int __kmpc_reduce_nowait(ident_t* l, int g, int n, size_t s, void* d, void (*f)(void*, void*), void* c) { return 1; }
void __kmpc_end_reduce(ident_t* l, int g, void* c) {}
void __kmpc_end_reduce_nowait(ident_t* l, int g, void* c) {}
void __kmpc_copyprivate(ident_t* l, int g, size_t s, void* d, void (*f)(void*, void*), int it) {}

typedef void (*Micro)(int*, int*, ...);

void __kmpc_fork_call(ident_t* l, int argc, Micro f, ...)
{
    int i, gt = 0, bt = 0;
    void* a[32] = {0};
    va_list ap;
    if (argc > 32) { fprintf(stderr, "kmp: too many shared variables\n"); abort(); }
    va_start(ap, f);
    for (i = 0; i < argc; ++i) a[i] = va_arg(ap, void*);
    va_end(ap);
    level++;
    /* arguments beyond those the function takes are ignored by the callee */
    f(&gt, &bt, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15],
            a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31]);
    level--;
}

void __kmpc_fork_call_if(ident_t* l, int argc, Micro f, int cond, void* args)
{
    int gt = 0, bt = 0;
    level++;
    f(&gt, &bt, args);
    level--;
}

/* Static schedules: the bounds stay as they are, one chunk covers them all. */
#define LOOP(SUF, T, ST)                                                                                   \
    static T lo##SUF[64], hi##SUF[64];                                                                     \
    static ST st##SUF[64];                                                                                 \
    static int live##SUF[64], depth##SUF;                                                                  \
    void __kmpc_for_static_init_##SUF(ident_t* l, int g, int sched, int* last, T* lb, T* ub, ST* stride,   \
            ST incr, ST chunk)                                                                             \
    {                                                                                                      \
        /* a chunked schedule: the chunks follow one another, the step between them is their length */     \
        int s = sched & ~((1 << 29) | (1 << 30));                                                          \
        if (last) *last = 1;                                                                               \
        if (s == 33 && chunk > 0)                                                                          \
        {                                                                                                  \
            *stride = chunk * incr;                                                                        \
            *ub = *lb + (T) (*stride - incr);                                                              \
        }                                                                                                  \
        else                                                                                               \
        {                                                                                                  \
            *stride = (ST) (incr > 0 ? (*ub - *lb + 1) : (*lb - *ub + 1));                                 \
            if (incr < 0) *stride = -*stride;                                                              \
        }                                                                                                  \
    }                                                                                                      \
    void __kmpc_dispatch_init_##SUF(ident_t* l, int g, int sched, T lb, T ub, ST st, ST chunk)             \
    {                                                                                                      \
        int d = depth##SUF++;                                                                              \
        if (d >= 64) { fprintf(stderr, "kmp: loops nested too deeply\n"); abort(); }                       \
        lo##SUF[d] = lb;                                                                                   \
        hi##SUF[d] = ub;                                                                                   \
        st##SUF[d] = st;                                                                                   \
        live##SUF[d] = st > 0 ? lb <= ub : lb >= ub;                                                       \
    }                                                                                                      \
    int __kmpc_dispatch_next_##SUF(ident_t* l, int g, int* last, T* lb, T* ub, ST* st)                     \
    {                                                                                                      \
        int d = depth##SUF - 1;                                                                            \
        if (!live##SUF[d])                                                                                 \
        {                                                                                                  \
            depth##SUF--;                                                                                  \
            return 0;                                                                                      \
        }                                                                                                  \
        live##SUF[d] = 0;                                                                                  \
        if (last) *last = 1;                                                                               \
        *lb = lo##SUF[d];                                                                                  \
        *ub = hi##SUF[d];                                                                                  \
        if (st) *st = st##SUF[d];                                                                          \
        return 1;                                                                                          \
    }                                                                                                      \
    void __kmpc_dispatch_fini_##SUF(ident_t* l, int g) {}

LOOP(4, int32_t, int32_t)
LOOP(4u, uint32_t, int32_t)
LOOP(8, int64_t, int64_t)
LOOP(8u, uint64_t, int64_t)

void __kmpc_for_static_fini(ident_t* l, int g) {}
void __kmpc_dispatch_deinit(ident_t* l, int g) {}

int omp_get_thread_num(void) { return 0; }
int omp_get_num_threads(void) { return 1; }
int omp_get_max_threads(void) { return 1; }
int omp_get_num_procs(void) { return 1; }
int omp_get_thread_limit(void) { return 1; }
int omp_in_parallel(void) { return 0; }
int omp_get_level(void) { return level; }
int omp_get_active_level(void) { return 0; }
int omp_get_nested(void) { return 0; }
int omp_get_dynamic(void) { return 0; }
int omp_get_max_active_levels(void) { return 1; }
int omp_get_team_size(int n) { return 1; }
int omp_get_ancestor_thread_num(int n) { return 0; }
void omp_set_num_threads(int n) {}
void omp_set_nested(int n) {}
void omp_set_dynamic(int n) {}
void omp_set_max_active_levels(int n) {}
void omp_set_schedule(omp_sched_t s, int n) {}
double omp_get_wtime(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
double omp_get_wtick(void) { return 1e-9; }
/* A lock taken twice by the only thread would wait for ever. */
void omp_init_lock(omp_lock_t* k) { k->p = 0; }
void omp_destroy_lock(omp_lock_t* k) {}
void omp_set_lock(omp_lock_t* k)
{
    if (k->p) { fprintf(stderr, "kmp: lock taken twice\n"); abort(); }
    k->p = k;
}
void omp_unset_lock(omp_lock_t* k) { k->p = 0; }
int omp_test_lock(omp_lock_t* k) { return k->p ? 0 : (k->p = k, 1); }
void omp_init_nest_lock(omp_nest_lock_t* k) { k->n = 0; }
void omp_destroy_nest_lock(omp_nest_lock_t* k) {}
void omp_set_nest_lock(omp_nest_lock_t* k) { k->n++; }
void omp_unset_nest_lock(omp_nest_lock_t* k) { k->n--; }
int omp_test_nest_lock(omp_nest_lock_t* k) { return ++k->n; }
