/* Idle pools: C25, C26 */
#include "vf.h"
#include "gutil_idlepool.h"

#ifndef STEPS
#define STEPS 2
#endif
#ifndef OP1
#define OP1 0
#endif
#ifndef CONTEXT
#define CONTEXT 0
#endif

/* Threads: the harness decides which one is running */
static gsize thread = 1;
#define MAXTHREADS 3
static struct { GPrivate* key; gpointer value; } priv[MAXTHREADS];
#undef g_thread_self
static char tid[MAXTHREADS];
GThread* g_thread_self(void) { return (GThread*)(tid + thread); }
gpointer g_private_get(GPrivate* key)
{
    VF_CHECK(!priv[thread].key || priv[thread].key == key, "one thread-specific value");
    return priv[thread].value;
}
void g_private_set(GPrivate* key, gpointer value)
{
    VF_CHECK(!priv[thread].key || priv[thread].key == key, "one thread-specific value");
    priv[thread].key = key;
    priv[thread].value = value;
}
static void thread_exit(void)
{
    gpointer value = priv[thread].value;

    priv[thread].value = NULL;
    if (value) ((void (*)(gpointer)) gutil_idle_pool_unref)(value);
}

/* Items */
#define MAXITEMS 8
enum { PLAIN, SPAWNER, DRAINER };
typedef struct { int kind; int destroyed; gsize thread; } Item;
static Item item[MAXITEMS];
static int nitems, queue[MAXITEMS], nqueue, qpos, in_order, may_destroy;
static GUtilIdlePool* pool;
static GMainContext* ctx;

static void add(int kind);
static void destroy(gpointer data)
{
    Item* it = data;
    VF_CHECK(may_destroy, "items are not destroyed before drain or event loop");
    VF_CHECK(thread == it->thread, "items are destroyed on their own thread");
    VF_CHECK(!it->destroyed, "item is destroyed once");
    it->destroyed++;
    if (in_order) {
        VF_CHECK(qpos < nqueue && it == item + queue[qpos], "items are destroyed in the order of addition");
        qpos++;
    }
    if (it->kind == SPAWNER) add(PLAIN);
    else if (it->kind == DRAINER) { in_order = 0; add(PLAIN); gutil_idle_pool_drain(pool); }
}
static void add(int kind)
{
    Item* it = item + nitems;
    VF_CHECK(nitems < MAXITEMS, "harness: number of items");
    it->kind = kind;
    it->destroyed = 0;
    it->thread = thread;
    queue[nqueue++] = nitems++;
    VF_CHECK(gutil_idle_pool_add(pool, it, destroy) == it, "the pointer is returned");
}
static void all_destroyed(void)
{
    int i;
    for (i = 0; i < nitems; i++) VF_CHECK(item[i].destroyed == 1, "every item is destroyed exactly once");
}
static int pending_items(void)
{
    int i, n = 0;
    for (i = 0; i < nitems; i++) if (!item[i].destroyed) n++;
    return n;
}
static int unrelated_runs;
static gboolean unrelated(gpointer data) { unrelated_runs++; return G_SOURCE_REMOVE; }

static void start(void)
{
    thread = 1;
    nitems = nqueue = qpos = 0;
    in_order = 1;
    may_destroy = 0;
    unrelated_runs = 0;
    ctx = NULL;
}
#define OPS 7
static int refs;
static void op(int k)
{
    switch (k) {
    case 0: add(PLAIN); break;
    case 1: add(SPAWNER); break;
    case 2: add(DRAINER); break;
    case 3:
        may_destroy = 1;
        gutil_idle_pool_drain(pool);
        may_destroy = 0;
        all_destroyed();
        VF_CHECK(!g_main_context_pending(ctx), "nothing is scheduled for an empty pool");
        break;
    case 4:
        VF_CHECK(g_main_context_pending(ctx) == (pending_items() > 0), "event loop has work to do if there are items");
        may_destroy = 1;
        g_main_context_iteration(ctx, FALSE);
        may_destroy = 0;
        all_destroyed();
        VF_CHECK(!g_main_context_pending(ctx), "nothing is scheduled for an empty pool");
        break;
    case 5:
        VF_CHECK(gutil_idle_pool_ref(pool) == pool, "reference is returned");
        refs++;
        break;
    case 6:
        if (refs > 1) { gutil_idle_pool_unref(pool); refs--; }
        break;
    }
}

/* Any history of operations */
void h_pool(void)
{
    VF_SPLIT(o2, 0, OPS - 1) VF_SPLIT(o3, STEPS > 2 ? 0 : -1, STEPS > 2 ? OPS - 1 : -1) VF_SPLIT(end, 0, 1) {
        const gint64 live = vf_live();
        guint id = 0;

        start();
        if (CONTEXT) {
            /* This one is first in the default context */
            id = g_idle_add(unrelated, NULL);
            ctx = g_main_context_new();
            g_main_context_push_thread_default(ctx);
        }
        pool = gutil_idle_pool_new();
        refs = 1;
        op(OP1);
        op(o2);
        if (o3 >= 0) op(o3);
        /* Whoever holds the last reference */
        while (refs > 1) { gutil_idle_pool_unref(pool); refs--; }
        may_destroy = 1;
        if (end) {
            gutil_idle_pool_destroy(pool);
            all_destroyed();
        } else {
            const gboolean pending = pending_items() > 0;
            may_destroy = !pending;
            gutil_idle_pool_unref(pool);
            may_destroy = 1;
            VF_CHECK(g_main_context_pending(ctx) == pending, "event loop has work to do if there are items");
            g_main_context_iteration(ctx, FALSE);
            all_destroyed();
        }
        VF_CHECK(!g_main_context_pending(ctx), "nothing is left in the event loop");
        if (CONTEXT) {
            g_main_context_pop_thread_default(ctx);
            g_main_context_unref(ctx);
            VF_CHECK(!unrelated_runs, "other sources are not touched");
            VF_CHECK(g_main_context_iteration(NULL, FALSE) && unrelated_runs == 1, "other sources are not touched");
        }
        VF_NOLEAK(live);
        if (o2 == OPS - 1 && end) VF_REACH("last operation");
        VF_STOP();
    }
}

/* Convenience adders */
static int released;
static void count_release(gpointer data) { released++; }
static void object_gone(gpointer data, GObject* gone) { released++; }

void h_adders(void)
{
    VF_SPLIT(kind, 0, 8) VF_SPLIT(how, 0, 1) {
        const gint64 live = vf_live();
        static const guint8 data[] = { 1, 2 };
        GObject* o = NULL;
        GBytes* b = NULL;
        GVariant* v = NULL;
        GPtrArray* a = NULL;
        GUtilIdlePool* p = gutil_idle_pool_new();

        start();
        released = 0;
        switch (kind) {
        case 0: {
            char** sv = g_new(char*, 3);
            sv[0] = g_strdup("a");
            sv[1] = g_strdup("bc");
            sv[2] = NULL;
            VF_CHECK(gutil_idle_pool_add_strv(p, sv) == sv, "the pointer is returned");
            VF_CHECK(sv[0][0] == 'a' && sv[1][1] == 'c' && !sv[2], "nothing is released yet");
            break;
        }
        case 1: case 2:
            o = g_object_new(G_TYPE_OBJECT, NULL);
            g_object_weak_ref(o, object_gone, NULL);
            VF_CHECK((kind == 1 ? gutil_idle_pool_add_object(p, o) : gutil_idle_pool_add_object_ref(p, o)) == o, "the pointer is returned");
            VF_CHECK(o->ref_count == (guint) kind, "a reference is taken only by the _ref functions");
            break;
        case 3: case 4:
            b = g_bytes_new_with_free_func(data, 2, count_release, NULL);
            VF_CHECK((kind == 3 ? gutil_idle_pool_add_bytes(p, b) : gutil_idle_pool_add_bytes_ref(p, b)) == b, "the pointer is returned");
            break;
        case 5: case 6:
            v = g_variant_ref_sink(g_variant_new_from_data(G_VARIANT_TYPE_BYTESTRING, data, 2, TRUE, count_release, NULL));
            VF_CHECK((kind == 5 ? gutil_idle_pool_add_variant(p, v) : gutil_idle_pool_add_variant_ref(p, v)) == v, "the pointer is returned");
            break;
        case 7: case 8:
            a = g_ptr_array_new_with_free_func(count_release);
            g_ptr_array_add(a, (gpointer) data);
            VF_CHECK((kind == 7 ? gutil_idle_pool_add_ptr_array(p, a) : gutil_idle_pool_add_ptr_array_ref(p, a)) == a, "the pointer is returned");
            break;
        }
        VF_CHECK(!released, "nothing is released yet");
        VF_CHECK(g_main_context_pending(NULL), "release is scheduled");
        if (how) gutil_idle_pool_drain(p); else g_main_context_iteration(NULL, FALSE);
        if (!kind) {
            VF_CHECK(!released, "nothing else is released");
        } else if (kind & 1) {
            VF_CHECK(released == 1, "the given reference is released");
        } else {
            VF_CHECK(!released, "only the taken reference is released");
            if (o) { VF_CHECK(o->ref_count == 1, "only the taken reference is released"); g_object_unref(o); }
            if (b) g_bytes_unref(b);
            if (v) g_variant_unref(v);
            if (a) g_ptr_array_unref(a);
            VF_CHECK(released == 1, "only the taken reference is released");
        }
        gutil_idle_pool_unref(p);
        VF_CHECK(!g_main_context_pending(NULL), "nothing is left in the event loop");
        VF_NOLEAK(live);
        if (kind == 8 && how) VF_REACH("last kind");
        VF_STOP();
    }
}

/* Absent things */
void h_adders_nothing(void)
{
    const gint64 live = vf_live();
    GUtilIdlePool* p = gutil_idle_pool_new();
    gpointer any = vf_ptr();

    start();
    VF_CHECK(!gutil_idle_pool_add_strv(p, NULL), "nothing is returned");
    VF_CHECK(!gutil_idle_pool_add_object(p, NULL), "nothing is returned");
    VF_CHECK(!gutil_idle_pool_add_object_ref(p, NULL), "nothing is returned");
    VF_CHECK(!gutil_idle_pool_add_bytes(p, NULL), "nothing is returned");
    VF_CHECK(!gutil_idle_pool_add_bytes_ref(p, NULL), "nothing is returned");
    VF_CHECK(!gutil_idle_pool_add_variant(p, NULL), "nothing is returned");
    VF_CHECK(!gutil_idle_pool_add_variant_ref(p, NULL), "nothing is returned");
    VF_CHECK(!gutil_idle_pool_add_ptr_array(p, NULL), "nothing is returned");
    VF_CHECK(!gutil_idle_pool_add_ptr_array_ref(p, NULL), "nothing is returned");
    VF_CHECK(gutil_idle_pool_add(p, any, NULL) == any, "the pointer is returned");
    VF_CHECK(!g_main_context_pending(NULL), "nothing is scheduled");
    gutil_idle_pool_drain(p);
    gutil_idle_pool_unref(p);
    VF_CHECK(!g_main_context_pending(NULL), "nothing is scheduled");
    VF_CHECK(!gutil_idle_pool_ref(NULL), "no reference to nothing");
    gutil_idle_pool_unref(NULL);
    gutil_idle_pool_destroy(NULL);
    VF_NOLEAK(live);
    VF_END("end");
}

/* Shared pools. Any history of these: get (without a reference), take and
 * release references, add, drain, iterate. */
static GUtilIdlePool* shared;
static int held;                /* References of the harness */
static gboolean fresh;          /* Never iterated or drained: keeps itself alive */
#define SOPS 6
static void sop(int k)
{
    GUtilIdlePool* p;

    switch (k) {
    case 0: /* get */
        p = shared;
        pool = gutil_idle_pool_get(&shared);
        VF_CHECK(pool && shared == pool, "shared variable points to the instance");
        if (p) VF_CHECK(pool == p, "the existing instance is returned");
        else { VF_CHECK(!held, "an instance in use stays shared"); fresh = 1; }
        break;
    case 1: /* get and keep */
        sop(0);
        gutil_idle_pool_ref(shared);
        held++;
        break;
    case 2: /* release */
        if (held) {
            const gboolean alive = held > 1 || pending_items() || fresh;
            held--;
            may_destroy = !alive;
            gutil_idle_pool_unref(shared);
            may_destroy = 0;
            VF_CHECK((shared != NULL) == alive, "shared variable is cleared exactly when the pool is gone");
        }
        break;
    case 3: /* add */
        if (shared) { pool = shared; add(PLAIN); }
        break;
    case 4: /* drain */
        if (held) {
            may_destroy = 1;
            gutil_idle_pool_drain(shared);
            may_destroy = 0;
            fresh = 0;
            all_destroyed();
            VF_CHECK(shared != NULL, "shared variable is cleared exactly when the pool is gone");
            VF_CHECK(!g_main_context_pending(NULL), "nothing is scheduled for an empty pool");
        }
        break;
    case 5: /* iterate */
        VF_CHECK(g_main_context_pending(NULL) == (shared && (fresh || pending_items())), "event loop has work to do if there are items");
        may_destroy = 1;
        g_main_context_iteration(NULL, FALSE);
        may_destroy = 0;
        fresh = 0;
        all_destroyed();
        VF_CHECK((shared != NULL) == (held > 0), "shared variable is cleared exactly when the pool is gone");
        VF_CHECK(!g_main_context_pending(NULL), "nothing is scheduled for an empty pool");
        break;
    }
}
void h_shared(void)
{
    VF_SPLIT(o2, 0, SOPS - 1) VF_SPLIT(o3, 0, SOPS - 1) VF_SPLIT(o4, STEPS > 2 ? 0 : -1, STEPS > 2 ? SOPS - 1 : -1) {
        const gint64 live = vf_live();
        start();
        shared = NULL;
        held = fresh = 0;
        sop(OP1);
        sop(o2);
        sop(o3);
        if (o4 >= 0) sop(o4);
        while (held) sop(2);
        sop(5);
        VF_CHECK(!shared, "unreferenced shared pool disappears by itself");
        VF_NOLEAK(live);
        if (o2 == SOPS - 1 && o3 == o2) VF_REACH("last operation");
        VF_STOP();
    }
}

/* Event loop runs on another thread */
void h_threads(void)
{
    VF_SPLIT(n, 1, 2) VF_SPLIT(end, 0, 2) {
        const gint64 live = vf_live();
        int i;

        start();
        pool = gutil_idle_pool_new();
        for (i = 0; i < n; i++) add(PLAIN);
        thread = 2;
        while (g_main_context_pending(NULL)) g_main_context_iteration(NULL, FALSE);
        VF_CHECK(pending_items() == n, "items stay queued");
        thread = 1;
        may_destroy = 1;
        if (end == 0) gutil_idle_pool_drain(pool);
        if (end == 1) {
            /* The next addition gets it going again */
            may_destroy = 0;
            add(PLAIN);
            may_destroy = 1;
            VF_CHECK(g_main_context_pending(NULL), "event loop has work to do if there are items");
            g_main_context_iteration(NULL, FALSE);
            all_destroyed();
        }
        gutil_idle_pool_unref(pool);
        all_destroyed();
        VF_CHECK(!g_main_context_pending(NULL), "nothing is left in the event loop");
        VF_NOLEAK(live);
        if (n == 2 && end == 2) VF_REACH("last");
        VF_STOP();
    }
}

/* One default pool per thread */
void h_default(void)
{
    VF_SPLIT(second, 0, 3) VF_SPLIT(how, 0, 3) {
        const gint64 live = vf_live();
        GUtilIdlePool* p1;
        GUtilIdlePool* p2 = NULL;

        start();
        if (second == 3) { /* The other thread is the first one */
            thread = 2;
            p2 = gutil_idle_pool_get_default();
            VF_CHECK(gutil_idle_pool_get_default() == p2, "one default pool per thread");
            thread = 1;
        }
        p1 = gutil_idle_pool_get_default();
        VF_CHECK(gutil_idle_pool_get_default() == p1, "one default pool per thread");
        if (second == 2) { /* Both are empty */
            thread = 2;
            p2 = gutil_idle_pool_get_default();
            thread = 1;
        }
        VF_CHECK(p1 != p2, "one default pool per thread");
        VF_CHECK(p1 && gutil_idle_pool_get_default() == p1, "one default pool per thread");
        pool = NULL;
        add(PLAIN);
        if (second) {
            thread = 2;
            if (second == 1) p2 = gutil_idle_pool_get_default();
            VF_CHECK(p2 && p2 != p1 && gutil_idle_pool_get_default() == p2, "one default pool per thread");
            may_destroy = 1;
            gutil_idle_pool_drain(NULL);
            may_destroy = 0;
            VF_CHECK(pending_items() == 1, "pool of another thread is not drained");
            thread = 1;
        }
        VF_CHECK(gutil_idle_pool_get_default() == p1, "one default pool per thread");
        may_destroy = 1;
        switch (how) {
        case 0: gutil_idle_pool_drain(NULL); break;
        case 1: g_main_context_iteration(NULL, FALSE); break;
        case 2: gutil_idle_pool_drain(p1); break;
        case 3: thread_exit(); g_main_context_iteration(NULL, FALSE); break;
        }
        all_destroyed();
        VF_CHECK(!g_main_context_pending(NULL), "nothing is left in the event loop");
        thread_exit();
        if (second) { thread = 2; thread_exit(); }
        VF_NOLEAK(live);
        if (second == 3 && how == 3) VF_REACH("last");
        VF_STOP();
    }
}

/* Not shared: a new instance every time */
void h_unshared(void)
{
    const gint64 live = vf_live();
    GUtilIdlePool* p1 = gutil_idle_pool_get(NULL);
    GUtilIdlePool* p2 = gutil_idle_pool_get(NULL);

    VF_CHECK(p1 && p2 && p1 != p2, "different instances");
    VF_CHECK(!g_main_context_pending(NULL), "nothing is scheduled");
    gutil_idle_pool_unref(p1);
    gutil_idle_pool_unref(p2);
    VF_NOLEAK(live);
    VF_END("end");
}
