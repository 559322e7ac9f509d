/* GArray, GPtrArray */
#include "vf.h"
#include <stdlib.h>

#undef g_array_free
#undef g_array_append_vals

typedef struct {
    guint8* data;
    guint len;
    guint elt_capacity;
    guint elt_size;
    gboolean zero_terminated, clear;
    gint ref_count;
    GDestroyNotify clear_func;
} VfArray;

#define ELT(a,i) ((a)->data + (a)->elt_size * (gsize)(i))

static guint vf_capacity(gsize bytes, guint elt)
{
    gsize n = 16;
    __CPROVER_assert(bytes <= G_MAXUINT, "array size overflow (abort)");
    while (n < bytes) n <<= 1;
    return (guint)(n / elt);
}
/* Integer arrays are moved number by number */
static void vf_move(VfArray* a, guint to, guint from, guint n)
{
    guint i;
    if (a->elt_size == sizeof(int)) {
        int* d = (int*)a->data;
        if (to < from) for (i = 0; i < n; i++) d[to + i] = d[from + i];
        else for (i = n; i > 0; i--) d[to + i - 1] = d[from + i - 1];
    } else {
        memmove(ELT(a, to), ELT(a, from), (gsize) n * a->elt_size);
    }
}
static void vf_put(VfArray* a, guint to, gconstpointer src, guint n)
{
    guint i;
    if (a->elt_size == sizeof(int)) {
        int* d = (int*)a->data;
        const int* s = src;
        for (i = 0; i < n; i++) d[to + i] = s[i];
    } else {
        memcpy(ELT(a, to), src, (gsize) n * a->elt_size);
    }
}
static void vf_array_expand(VfArray* a, guint extra)
{
    __CPROVER_assert(extra <= G_MAXUINT - a->len, "adding too many elements to array would overflow (abort)");
    if (a->len + extra > a->elt_capacity) {
        const guint cap = vf_capacity((gsize)(a->len + extra) * a->elt_size, a->elt_size);
        a->data = g_realloc_n(a->data, cap, a->elt_size);
        a->elt_capacity = cap;
    }
}
GArray* g_array_sized_new(gboolean zt, gboolean clear, guint elt, guint reserved)
{
    VfArray* a = g_malloc(sizeof(VfArray));
    __CPROVER_assert(!zt, "model: terminated array");
    a->data = NULL;
    a->len = 0;
    a->elt_capacity = 0;
    a->elt_size = elt;
    a->zero_terminated = FALSE;
    a->clear = clear;
    a->ref_count = 1;
    a->clear_func = NULL;
    if (reserved) vf_array_expand(a, reserved);
    return (GArray*)a;
}
GArray* g_array_new(gboolean zt, gboolean clear, guint elt) { return g_array_sized_new(zt, clear, elt, 0); }
GArray* g_array_ref(GArray* a) { ((VfArray*)a)->ref_count++; return a; }
gchar* g_array_free(GArray* g, gboolean free_segment)
{
    VfArray* a = (VfArray*)g;
    gchar* segment = NULL;
    __CPROVER_assert(a != NULL && a->ref_count > 0, "GLib critical warning: array");
    if (free_segment) g_free(a->data);
    else segment = (gchar*)a->data;
    if (--a->ref_count) {
        a->data = NULL;
        a->len = a->elt_capacity = 0;
    } else {
        g_free(a);
    }
    return segment;
}
void g_array_unref(GArray* g)
{
    VfArray* a = (VfArray*)g;
    __CPROVER_assert(a != NULL && a->ref_count > 0, "GLib critical warning: array");
    if (!--a->ref_count) {
        g_free(a->data);
        g_free(a);
    }
}
GArray* g_array_append_vals(GArray* g, gconstpointer data, guint len)
{
    VfArray* a = (VfArray*)g;
    if (len) {
        vf_array_expand(a, len);
        vf_put(a, a->len, data, len);
        a->len += len;
    }
    return g;
}
GArray* g_array_prepend_vals(GArray* g, gconstpointer data, guint len)
{
    VfArray* a = (VfArray*)g;
    if (len) {
        vf_array_expand(a, len);
        vf_move(a, len, 0, a->len);
        vf_put(a, 0, data, len);
        a->len += len;
    }
    return g;
}
GArray* g_array_set_size(GArray* g, guint len)
{
    VfArray* a = (VfArray*)g;
    if (len > a->len) {
        vf_array_expand(a, len - a->len);
        if (a->clear) memset(ELT(a, a->len), 0, (gsize)(len - a->len) * a->elt_size);
    }
    a->len = len;
    return g;
}
GArray* g_array_insert_vals(GArray* g, guint pos, gconstpointer data, guint len)
{
    VfArray* a = (VfArray*)g;
    if (len) {
        if (pos >= a->len) {
            __CPROVER_assert(pos <= G_MAXUINT - len, "array size overflow (abort)");
            vf_array_expand(a, pos - a->len + len);
            return g_array_append_vals(g_array_set_size(g, pos), data, len);
        }
        vf_array_expand(a, len);
        vf_move(a, pos + len, pos, a->len - pos);
        vf_put(a, pos, data, len);
        a->len += len;
    }
    return g;
}
GArray* g_array_remove_index(GArray* g, guint i)
{
    VfArray* a = (VfArray*)g;
    __CPROVER_assert(i < a->len, "GLib critical warning: array index");
    vf_move(a, i, i + 1, a->len - i - 1);
    a->len--;
    return g;
}
GArray* g_array_remove_index_fast(GArray* g, guint i)
{
    VfArray* a = (VfArray*)g;
    __CPROVER_assert(i < a->len, "GLib critical warning: array index");
    if (i != a->len - 1) vf_move(a, i, a->len - 1, 1);
    a->len--;
    return g;
}
GArray* g_array_remove_range(GArray* g, guint i, guint n)
{
    VfArray* a = (VfArray*)g;
    __CPROVER_assert(i <= a->len && n <= a->len - i, "GLib critical warning: array range");
    if (i + n != a->len) vf_move(a, i, i + n, a->len - (i + n));
    a->len -= n;
    return g;
}
void g_array_sort(GArray* g, GCompareFunc cmp)
{
    VfArray* a = (VfArray*)g;
    guint i, k;
    __CPROVER_assert(a->elt_size == sizeof(int), "model: element size");
    for (i = 1; i < a->len; i++) {
        int* d = (int*)a->data;
        for (k = i; k > 0; k--) {
            const int x = d[k - 1], y = d[k];
            /* Inconsistent comparison functions don't matter here */
            const gboolean swap = cmp(&x, &y) > 0;
            d[k - 1] = swap ? y : x;
            d[k] = swap ? x : y;
        }
    }
}
guint g_array_get_element_size(GArray* g) { return ((VfArray*)g)->elt_size; }
