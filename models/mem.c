/* Heap model: GLib allocation functions over CBMC's malloc/free. Allocation
 * never fails (GLib aborts the process when it does), zero sizes give NULL. */
#include "vf.h"
#include <stdlib.h>

uint64_t nondet_u64(void);
static gint64 vf_live_count = 0;

uint64_t vf_nd(void)
{
    uint64_t v = nondet_u64();
    __CPROVER_input("vf", v);
    return v;
}

void* vf_counted(void* p) { vf_live_count++; return p; }
gint64 vf_live(void) { return vf_live_count; }

#undef g_malloc
#undef g_malloc0
#undef g_realloc
#undef g_free
#undef g_malloc_n
#undef g_malloc0_n
#undef g_realloc_n
#undef g_try_malloc
#undef g_try_malloc0
#undef g_try_malloc_n
#undef g_try_realloc
#undef g_free_sized
#undef g_clear_pointer
#undef g_memdup2
#undef g_memdup

static void* vf_alloc(gsize n)
{
    vf_live_count++;
    return malloc(n);
}

gpointer g_malloc(gsize n) { return n ? vf_alloc(n) : NULL; }
gpointer g_try_malloc(gsize n) { return g_malloc(n); }

gpointer g_malloc0(gsize n)
{
    if (n) {
#ifdef VF_CONC
        /* Integers, for the counter to be one shared variable */
        if (!(n & 3)) {
            int* words = malloc(sizeof(int) * (n / 4));
            gsize i;
            for (i = 0; i < n / 4; i++) words[i] = 0;
            return words;
        }
#endif
        void* p = vf_alloc(n);
        memset(p, 0, n);
        return p;
    }
    return NULL;
}
gpointer g_try_malloc0(gsize n) { return g_malloc0(n); }

#ifdef VF_CONC
/* Concurrent executions: a block is marked by the harness as released */
void vf_conc_free(void* p);
#endif
void g_free(gpointer p)
{
    if (p) {
#ifdef VF_CONC
        vf_conc_free(p);
#else
        vf_live_count--;
        free(p);
#endif
    }
}
void g_free_sized(gpointer p, size_t n) { g_free(p); }

gpointer g_realloc(gpointer p, gsize n)
{
    if (!p) {
        return g_malloc(n);
    } else if (!n) {
        g_free(p);
        return NULL;
    } else {
        const gsize old = __CPROVER_OBJECT_SIZE(p);
        void* q;

        __CPROVER_assert(__CPROVER_POINTER_OFFSET(p) == 0 &&
            __CPROVER_DYNAMIC_OBJECT(p), "realloc of a heap block");
        q = vf_alloc(n);
        memcpy(q, p, old < n ? old : n);
        g_free(p);
        return q;
    }
}
gpointer g_try_realloc(gpointer p, gsize n) { return g_realloc(p, n); }

static gsize vf_mul(gsize a, gsize b)
{
    /* GLib aborts on overflow */
    __CPROVER_assert(!b || a <= G_MAXSIZE / b, "allocation size overflow (abort)");
    return a * b;
}

/* Element types matter for the efficiency of the encoding only */
gpointer g_malloc_n(gsize n, gsize s)
{
    const gsize total = vf_mul(n, s);

    if (!total) return NULL;
    vf_live_count++;
    if (s == sizeof(void*)) return malloc(sizeof(void*) * n);
    if (s == sizeof(int)) return malloc(sizeof(int) * n);
    return malloc(total);
}
gpointer g_malloc0_n(gsize n, gsize s)
{
    void* p = g_malloc_n(n, s);
    if (p) memset(p, 0, n * s);
    return p;
}
gpointer g_try_malloc_n(gsize n, gsize s) { return g_malloc_n(n, s); }
gpointer g_realloc_n(gpointer p, gsize n, gsize s) {
    const gsize total = vf_mul(n, s);

    if (!p) {
        return g_malloc_n(n, s);
    } else if (!total) {
        g_free(p);
        return NULL;
    } else {
        const gsize old = __CPROVER_OBJECT_SIZE(p);
        void* q;

        __CPROVER_assert(__CPROVER_POINTER_OFFSET(p) == 0 &&
            __CPROVER_DYNAMIC_OBJECT(p), "realloc of a heap block");
        q = g_malloc_n(n, s);
        memcpy(q, p, old < total ? old : total);
        g_free(p);
        return q;
    }
}

gpointer g_slice_alloc(gsize n) { return g_malloc(n); }
gpointer g_slice_alloc0(gsize n)
{
    void* p = g_malloc(n);
    memset(p, 0, n);
    return p;
}
gpointer g_slice_copy(gsize n, gconstpointer p)
{
    void* q = g_malloc(n);
    memcpy(q, p, n);
    return q;
}
void g_slice_free1(gsize n, gpointer p)
{
    if (p) {
        __CPROVER_assert(__CPROVER_OBJECT_SIZE(p) == n, "slice freed with its size");
    }
    g_free(p);
}
void g_slice_free_chain_with_offset(gsize n, gpointer chain, gsize off)
{
    while (chain) {
        gpointer next = *(gpointer*)((guint8*)chain + off);
        g_slice_free1(n, chain);
        chain = next;
    }
}

void g_clear_pointer(gpointer* pp, GDestroyNotify destroy)
{
    gpointer p = *pp;
    if (p) {
        *pp = NULL;
        destroy(p);
    }
}

gpointer g_memdup2(gconstpointer p, gsize n)
{
    if (p && n) {
        void* q = g_malloc(n);
        memcpy(q, p, n);
        return q;
    }
    return NULL;
}
gpointer g_memdup(gconstpointer p, guint n) { return g_memdup2(p, n); }
