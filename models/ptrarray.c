/* GPtrArray */
#include "vf.h"
#define CAP 8
typedef struct { gpointer* pdata; guint len; int refs; GDestroyNotify fn; } VfPtrArray;

GPtrArray* g_ptr_array_new_with_free_func(GDestroyNotify fn)
{
    VfPtrArray* a = g_malloc0(sizeof(VfPtrArray));
    a->refs = 1;
    a->fn = fn;
    return (GPtrArray*)a;
}
GPtrArray* g_ptr_array_new(void) { return g_ptr_array_new_with_free_func(NULL); }
GPtrArray* g_ptr_array_ref(GPtrArray* g)
{
    __CPROVER_assert(((VfPtrArray*)g)->refs > 0, "array is alive");
    ((VfPtrArray*)g)->refs++;
    return g;
}
void g_ptr_array_add(GPtrArray* g, gpointer p)
{
    VfPtrArray* a = (VfPtrArray*)g;
    if (!a->pdata) a->pdata = g_malloc0(sizeof(gpointer) * CAP);
    __CPROVER_assert(a->len < CAP, "model: size of pointer array");
    a->pdata[a->len++] = p;
}
gpointer* g_ptr_array_free(GPtrArray* g, gboolean free_segment)
{
    VfPtrArray* a = (VfPtrArray*)g;
    gpointer* d = a->pdata;
    guint i;
    __CPROVER_assert(a->refs == 1, "model: sole owner");
    if (free_segment) {
        if (a->fn) for (i = 0; i < a->len; i++) a->fn(d[i]);
        g_free(d);
        d = NULL;
    }
    g_free(a);
    return d;
}
void g_ptr_array_unref(GPtrArray* g)
{
    VfPtrArray* a = (VfPtrArray*)g;
    __CPROVER_assert(a->refs > 0, "array is alive");
    if (a->refs == 1) g_ptr_array_free(g, TRUE);
    else a->refs--;
}
