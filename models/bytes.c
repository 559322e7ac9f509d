/* GBytes and GVariant (byte arrays only) */
#include "vf.h"
#include <stdlib.h>

struct _GBytes {
    gconstpointer data;
    gsize size;
    gint ref_count;
    GDestroyNotify free_func;
    gpointer user_data;
};

#undef g_bytes_new
#undef g_bytes_new_take
#undef g_bytes_new_static
#undef g_bytes_new_with_free_func
#undef g_bytes_get_data
#undef g_bytes_get_size
#undef g_bytes_ref
#undef g_bytes_unref
#undef g_bytes_unref_to_data
#undef g_bytes_new_from_bytes

GBytes* g_bytes_new_with_free_func(gconstpointer data, gsize size, GDestroyNotify fn, gpointer user_data)
{
    GBytes* b = g_malloc(sizeof(GBytes));
    b->data = data;
    b->size = size;
    b->free_func = fn;
    b->user_data = user_data;
    b->ref_count = 1;
    return b;
}
GBytes* g_bytes_new_take(gpointer data, gsize size)
{
    return g_bytes_new_with_free_func(data, size, g_free, data);
}
GBytes* g_bytes_new(gconstpointer data, gsize size)
{
    return g_bytes_new_take(g_memdup2(data, size), size);
}
GBytes* g_bytes_new_static(gconstpointer data, gsize size)
{
    return g_bytes_new_with_free_func(data, size, NULL, NULL);
}
gconstpointer g_bytes_get_data(GBytes* b, gsize* size)
{
    __CPROVER_assert(b != NULL, "GLib critical warning: bytes");
    if (size) *size = b->size;
    return b->data;
}
gsize g_bytes_get_size(GBytes* b)
{
    __CPROVER_assert(b != NULL, "GLib critical warning: bytes");
    return b->size;
}
GBytes* g_bytes_ref(GBytes* b)
{
    __CPROVER_assert(b != NULL, "GLib critical warning: bytes");
    b->ref_count++;
    return b;
}
void g_bytes_unref(GBytes* b)
{
    if (!b) return;
    if (!--b->ref_count) {
        if (b->free_func == g_free) g_free(b->user_data);
        else if (b->free_func) b->free_func(b->user_data);
        g_free(b);
    }
}
GBytes* g_bytes_new_from_bytes(GBytes* b, gsize off, gsize len)
{
    __CPROVER_assert(b && off <= b->size && off + len <= b->size, "GLib critical warning: bytes");
    g_bytes_ref(b);
    return g_bytes_new_with_free_func((const guint8*)b->data + off, len, (GDestroyNotify) g_bytes_unref, b);
}
gboolean g_bytes_equal(gconstpointer a, gconstpointer b)
{
    const GBytes* x = a;
    const GBytes* y = b;
    return x->size == y->size && !memcmp(x->data, y->data, x->size);
}
gpointer g_bytes_unref_to_data(GBytes* b, gsize* size)
{
    gpointer res;
    *size = b->size;
    if (b->ref_count == 1 && b->free_func == g_free && b->data == b->user_data && b->data) {
        res = (gpointer) b->data;
        g_free(b);
    } else {
        res = g_memdup2(b->data, b->size);
        g_bytes_unref(b);
    }
    return res;
}

struct _GVariant {
    gpointer data;
    gsize size;
    gint ref_count;
    gboolean floating;
    gchar type[4];
    GDestroyNotify free_func;
    gpointer user_data;
};

static GVariant* vf_variant_take(const gchar* type, gconstpointer data, gsize size, GDestroyNotify fn, gpointer user_data)
{
    GVariant* v = g_malloc(sizeof(GVariant));
    v->data = (gpointer) data;
    v->free_func = fn;
    v->user_data = user_data;
    v->size = size;
    v->ref_count = 1;
    v->floating = TRUE;
    v->type[0] = type[0];
    v->type[1] = type[1];
    v->type[2] = v->type[3] = 0;
    __CPROVER_assert(type[0] == 'a' && type[1] == 'y' && !type[2], "model: only byte array variants");
    return v;
}
static GVariant* vf_variant(const gchar* type, gconstpointer data, gsize size)
{
    gpointer copy = g_memdup2(data, size);
    return vf_variant_take(type, copy, size, g_free, copy);
}
GVariant* g_variant_new_fixed_array(const GVariantType* t, gconstpointer data, gsize n, gsize size)
{
    const gchar* c = (const gchar*)t;
    const gchar type[3] = { 'a', c[0], 0 };
    __CPROVER_assert(size == 1, "GLib critical warning: element size");
    return vf_variant(type, data, n * size);
}
GVariant* g_variant_new_from_data(const GVariantType* t, gconstpointer data, gsize size, gboolean trusted, GDestroyNotify fn, gpointer user_data)
{
    return vf_variant_take((const gchar*)t, data, size, fn, user_data);
}
GVariant* g_variant_new_from_bytes(const GVariantType* t, GBytes* b, gboolean trusted)
{
    return vf_variant((const gchar*)t, b->data, b->size);
}
GVariant* g_variant_ref(GVariant* v) { v->ref_count++; return v; }
GVariant* g_variant_ref_sink(GVariant* v)
{
    if (v->floating) v->floating = FALSE; else v->ref_count++;
    return v;
}
GVariant* g_variant_take_ref(GVariant* v) { v->floating = FALSE; return v; }
gboolean g_variant_is_floating(GVariant* v) { return v->floating; }
void g_variant_unref(GVariant* v)
{
    if (!--v->ref_count) {
        if (v->free_func == g_free) g_free(v->user_data);
        else if (v->free_func) v->free_func(v->user_data);
        g_free(v);
    }
}
gboolean g_variant_is_of_type(GVariant* v, const GVariantType* t)
{
    const gchar* c = (const gchar*)t;
    return v->type[0] == c[0] && v->type[1] == c[1] && !c[2];
}
gconstpointer g_variant_get_fixed_array(GVariant* v, gsize* n, gsize size)
{
    *n = v->size / size;
    return v->data;
}
gsize g_variant_get_size(GVariant* v) { return v->size; }
gconstpointer g_variant_get_data(GVariant* v) { return v->data; }
