/* Assorted environment */
#include "vf.h"
#include <stdlib.h>

/* Criticals and warnings are programming errors */
void g_return_if_fail_warning(const char* domain, const char* func, const char* expr)
{
    __CPROVER_assert(0, "GLib critical warning");
    __CPROVER_assume(0);
}
void g_assertion_message_expr(const char* d, const char* f, int l, const char* fn, const char* e)
{
    __CPROVER_assert(0, "assertion failed");
    __CPROVER_assume(0);
}
void g_assertion_message(const char* d, const char* f, int l, const char* fn, const char* e)
{
    __CPROVER_assert(0, "assertion failed");
    __CPROVER_assume(0);
}
void abort(void)
{
    __CPROVER_assert(0, "abort");
    __CPROVER_assume(0);
}
void __atomic_thread_fence(int m) { }

/* Counters of GLib: indivisible */
void g_atomic_ref_count_init(gatomicrefcount* p) { *(int*)p = 1; }
void g_atomic_ref_count_inc(gatomicrefcount* p)
{
    __CPROVER_atomic_begin();
    ++*(int*)p;
    __CPROVER_atomic_end();
}
gboolean g_atomic_ref_count_dec(gatomicrefcount* p)
{
    int v;
    __CPROVER_atomic_begin();
    v = --*(int*)p;
    __CPROVER_atomic_end();
    return !v;
}
gboolean g_atomic_ref_count_compare(gatomicrefcount* p, gint v) { return *(int*)p == v; }
void g_ref_count_init(grefcount* p) { *p = -1; }
void g_ref_count_inc(grefcount* p) { --*p; }
gboolean g_ref_count_dec(grefcount* p) { return !++*p; }
GThread* g_thread_self(void);

/* Insertion sort: any correct sort yields the same result for a total
 * preorder up to the order of equivalent elements. The comparison function is
 * called with pointers into the array, as qsort does. */
typedef int (*vf_cmp)(const void*, const void*);
static void vf_swap(guint8* a, guint8* b, size_t size)
{
    if (size == 8) {
        void* t = *(void**)a; *(void**)a = *(void**)b; *(void**)b = t;
    } else if (size == 4) {
        int t = *(int*)a; *(int*)a = *(int*)b; *(int*)b = t;
    } else {
        for (size_t k = 0; k < size; k++) { guint8 t = a[k]; a[k] = b[k]; b[k] = t; }
    }
}
void qsort(void* base, size_t n, size_t size, vf_cmp cmp)
{
    guint8* p = base;
    for (size_t i = 1; i < n; i++) {
        for (size_t j = i; j > 0 && cmp(p + (j - 1) * size, p + j * size) > 0; j--) {
            vf_swap(p + (j - 1) * size, p + j * size, size);
        }
    }
}
void* bsearch(const void* key, const void* base, size_t n, size_t size, vf_cmp cmp)
{
    size_t lo = 0, hi = n;
    while (lo < hi) {
        const size_t mid = (lo + hi) / 2;
        const guint8* p = ((const guint8*)base) + mid * size;
        const int c = cmp(key, p);
        if (c < 0) hi = mid; else if (c > 0) lo = mid + 1; else return (void*)p;
    }
    return NULL;
}
