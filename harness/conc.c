/* Reference counting (C40).
 *
 * Threads: CBMC threads run PROG1 and PROG2, each owning one reference, over
 * every interleaving of their memory accesses. Natively the same two programs
 * run as coroutines, the library being instrumented with a possible switch
 * before every memory access (conc_native.c): all schedules are tried.
 *
 * Switches (SWITCH): a single thread, at each atomic operation of which the
 * other one may run from beginning to end. */
#include "vf.h"
#include "gutil_ring.h"
#include "gutil_history.h"
#include "gutil_ints.h"
#include "gutil_idlepool.h"
#include "gutil_idlequeue.h"
#include "gutil_weakref.h"

#ifndef KIND
#define KIND 0
#endif
#ifndef KEEP
#define KEEP 0
#endif
#ifndef PROG1
#define PROG1 0
#endif
#ifndef PROG2
#define PROG2 0
#endif

#if KIND == 0
#  define T GUtilRing
#  define NEW() gutil_ring_new()
#  define REF gutil_ring_ref
#  define UNREF gutil_ring_unref
#elif KIND == 1
#  define T GUtilIntHistory
#  define NEW() gutil_int_history_new(1, 1)
#  define REF gutil_int_history_ref
#  define UNREF gutil_int_history_unref
#elif KIND == 2
#  define T GUtilInts
static const int numbers[2] = { 42, 17 };
#  define NEW() gutil_ints_new_static(numbers, 2)
#  define REF gutil_ints_ref
#  define UNREF gutil_ints_unref
#elif KIND == 3
#  define T GUtilIdlePool
#  define NEW() gutil_idle_pool_new()
#  define REF gutil_idle_pool_ref
#  define UNREF gutil_idle_pool_unref
#elif KIND == 4
#  define T GUtilIdleQueue
#  define NEW() gutil_idle_queue_new()
#  define REF gutil_idle_queue_ref
#  define UNREF gutil_idle_queue_unref
#elif KIND == 5
#  define T GUtilWeakRef
#  define NEW() gutil_weakref_new(NULL)
#  define REF gutil_weakref_ref
#  define UNREF gutil_weakref_unref
#endif

static T* obj;
static int freed;

static inline void program(int prog, T* x)
{
    switch (prog) {
    case 0: UNREF(x); break;
    case 1: REF(x); UNREF(x); UNREF(x); break;
    case 2: REF(x); REF(x); UNREF(x); UNREF(x); UNREF(x); break;
    }
}

#if defined(VF_CBMC) && !defined(SWITCH)
static int done1, done2;
#undef g_thread_self
static char self;
GThread* g_thread_self(void) { return (GThread*)&self; }
void vf_conc_free(void* p)
{
    __CPROVER_atomic_begin();
    if (p == (void*)obj) freed++;
    __CPROVER_atomic_end();
}
static void done(int* flag)
{
    __CPROVER_atomic_begin();
    *flag = 1;
    __CPROVER_atomic_end();
}
static void t1(void) { program(PROG1, obj); done(&done1); }
static void t2(void) { program(PROG2, obj); done(&done2); }
#elif !defined(SWITCH)
/* The size of what is watched for accesses after the release needn't be exact */
void conc_run(void* block, gsize size, void (*t1)(void), void (*t2)(void));
extern int conc_freed;
static void t1(void) { program(PROG1, obj); }
static void t2(void) { program(PROG2, obj); }
#endif

#ifndef SWITCH
void h_threads(void)
{
    freed = 0;
    obj = NEW();
    VF_CHECK(obj && REF(obj) == obj, "reference");
    if (KEEP) REF(obj);
#ifdef VF_CBMC
    done1 = done2 = 0;
    __CPROVER_ASYNC_1: t1();
    __CPROVER_ASYNC_2: t2();
    VF_ASSUME(done1 && done2);
#else
    conc_run(obj, 8, t1, t2);
    freed = conc_freed;
#endif
    if (KEEP) {
        VF_CHECK(!freed, "object stays as long as there are references to it");
        UNREF(obj);
#ifndef VF_CBMC
        freed = conc_freed;
#endif
    }
    VF_CHECK(freed == 1, "object is destroyed once, when the last reference is gone");
    VF_END("end");
}
#else
#ifdef VF_CBMC
#undef g_thread_self
static char self;
GThread* g_thread_self(void) { return (GThread*)&self; }
#endif

/* One thread; at each atomic operation the other holder may run */
static int env_pending, env_at, points;
#ifndef PROG_ENV
#define PROG_ENV 0
#endif
static int* env_data;
static guint env_count;

static void env(void)
{
#if KIND == 2
    if (PROG_ENV == 9) {
        env_data = gutil_ints_unref_to_data(obj, &env_count);
        return;
    }
#endif
    program(PROG_ENV, obj);
}
void vf_switch(void)
{
    if (env_pending && points++ == env_at) {
        env_pending = 0;
        env();
    }
}
static int released;
static void on_release(gpointer data)
{
    released++;
    VF_CHECK(*(int*)data == 42, "what was given is released");
}
/* The object is created by the caller, with one reference */
static void finish(int* data, guint count, const int* expect, guint n)
{
    if (env_pending) {
        env_pending = 0;
        env();
    }
#if KIND == 2
    {
        guint i;
        if (expect) {
            VF_CHECK(count == n && (n == 0 || data), "the data");
            for (i = 0; i < n; i++) VF_CHECK(data[i] == expect[i], "the data");
            g_free(data);
        }
        if (PROG_ENV == 9) {
            VF_CHECK(env_count == 2 && env_data, "the data of the other holder");
            VF_CHECK(env_data[0] == 42 && env_data[1] == 17, "the data of the other holder");
            g_free(env_data);
        }
    }
#endif
}
static void begin(T* x)
{
    obj = x;
    VF_CHECK(obj && REF(obj) == obj, "reference");
    points = 0;
    env_pending = 1;
    released = 0;
}
void h_switch(void)
{
    VF_SPLIT(at, 0, 2 * POINTS) {
        const gint64 live0 = vf_live();
        env_pending = 0;
        env_at = at;
        begin(NEW());
        program(PROG1, obj);
        finish(NULL, 0, NULL, 0);
        VF_NOLEAK(live0);
        VF_END("end");
    }
}
#if KIND == 2
/* How the array came by its data */
void h_data(void)
{
    VF_SPLIT(at, 0, 2 * POINTS) {
        VF_SPLIT(how, 0, 3) {
            static const int two[2] = { 42, 17 };
            const gint64 live0 = vf_live();
            int* given = NULL;
            int* data;
            guint count = 0;
            env_pending = 0;
            env_at = at;
            switch (how) {
            case 0: begin(gutil_ints_new(two, 2)); break;
            case 1: begin(gutil_ints_new_static(two, 2)); break;
            case 2:
                given = g_malloc(sizeof(int) * 2);
                given[0] = 42; given[1] = 17;
                begin(gutil_ints_new_take(given, 2));
                break;
            default:
                begin(gutil_ints_new_with_free_func(two, 2, on_release, (gpointer)two));
                break;
            }
            data = gutil_ints_unref_to_data(obj, &count);
            finish(data, count, two, 2);
            VF_CHECK(released == (how == 3), "released once");
            VF_NOLEAK(live0);
            VF_END("end");
        }
    }
}
#endif
#endif
