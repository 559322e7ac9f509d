/* Hash tables; entries are kept in the order of insertion */
#include "vf.h"
#define MAXHASH 8
typedef struct { int refs; guint n; gpointer key[MAXHASH]; gpointer value[MAXHASH]; GDestroyNotify kfree, vfree; GEqualFunc equal; } VfHash;
#define H(t) ((VfHash*)(t))
static VfHash* vf_hash(GHashTable* t)
{
    __CPROVER_assert(t != NULL, "GLib critical warning: hash table");
    return H(t);
}
guint g_direct_hash(gconstpointer p) { return (guint)(gsize)p; }
gboolean g_direct_equal(gconstpointer a, gconstpointer b) { return a == b; }
GHashTable* g_hash_table_new_full(GHashFunc hash, GEqualFunc equal, GDestroyNotify kfree, GDestroyNotify vfree)
{
    VfHash* h = VF_NEW(VfHash);
    h->refs = 1;
    if (equal && equal != g_direct_equal) h->equal = equal;
    h->kfree = kfree;
    h->vfree = vfree;
    return (GHashTable*)h;
}
GHashTable* g_hash_table_new(GHashFunc hash, GEqualFunc equal) { return g_hash_table_new_full(hash, equal, NULL, NULL); }
guint g_hash_table_size(GHashTable* t) { return vf_hash(t)->n; }
static guint vf_hash_find(VfHash* h, gconstpointer key)
{
    guint i;
    if (h->equal) {
        for (i = 0; i < h->n; i++) if (h->equal(h->key[i], key)) break;
    } else {
        for (i = 0; i < h->n; i++) if ((gsize)h->key[i] == (gsize)key) break;
    }
    return i;
}
gpointer g_hash_table_lookup(GHashTable* t, gconstpointer key)
{
    VfHash* h = vf_hash(t);
    const guint i = vf_hash_find(h, key);
    return i < h->n ? h->value[i] : NULL;
}
gboolean g_hash_table_contains(GHashTable* t, gconstpointer key)
{
    VfHash* h = vf_hash(t);
    return vf_hash_find(h, key) < h->n;
}
gboolean g_hash_table_lookup_extended(GHashTable* t, gconstpointer key, gpointer* k, gpointer* v)
{
    VfHash* h = vf_hash(t);
    const guint i = vf_hash_find(h, key);
    if (i >= h->n) return FALSE;
    if (k) *k = h->key[i];
    if (v) *v = h->value[i];
    return TRUE;
}
static gboolean vf_hash_put(GHashTable* t, gpointer key, gpointer value, gboolean keep)
{
    VfHash* h = vf_hash(t);
    const guint i = vf_hash_find(h, key);
    if (i < h->n) {
        const gpointer old = h->value[i];
        const gpointer k = keep ? key : h->key[i];
        if (!keep) h->key[i] = key;
        h->value[i] = value;
        if (h->kfree) h->kfree(k);
        if (h->vfree) h->vfree(old);
        return FALSE;
    }
    __CPROVER_assert(h->n < MAXHASH, "model: size of the hash table");
    h->key[h->n] = key;
    h->value[h->n++] = value;
    return TRUE;
}
gboolean g_hash_table_insert(GHashTable* t, gpointer key, gpointer value) { return vf_hash_put(t, key, value, TRUE); }
gboolean g_hash_table_replace(GHashTable* t, gpointer key, gpointer value) { return vf_hash_put(t, key, value, FALSE); }
gboolean g_hash_table_add(GHashTable* t, gpointer key) { return vf_hash_put(t, key, key, FALSE); }
static gboolean vf_hash_take(VfHash* h, gconstpointer key, gboolean notify)
{
    guint k;
    const guint i = vf_hash_find(h, key);
    if (i < h->n) {
        const gpointer ok = h->key[i], ov = h->value[i];
        for (k = i; k + 1 < h->n; k++) { h->key[k] = h->key[k + 1]; h->value[k] = h->value[k + 1]; }
        h->n--;
        if (notify && h->kfree) h->kfree(ok);
        if (notify && h->vfree) h->vfree(ov);
        return TRUE;
    }
    return FALSE;
}
gboolean g_hash_table_remove(GHashTable* t, gconstpointer key) { return vf_hash_take(vf_hash(t), key, TRUE); }
gboolean g_hash_table_steal(GHashTable* t, gconstpointer key) { return vf_hash_take(vf_hash(t), key, FALSE); }
void g_hash_table_remove_all(GHashTable* t)
{
    VfHash* h = vf_hash(t);
    while (h->n) vf_hash_take(h, h->key[h->n - 1], TRUE);
}
GHashTable* g_hash_table_ref(GHashTable* t) { vf_hash(t)->refs++; return t; }
void g_hash_table_unref(GHashTable* t)
{
    VfHash* h = vf_hash(t);
    if (!--h->refs) {
        g_hash_table_remove_all(t);
        g_free(h);
    }
}
void g_hash_table_destroy(GHashTable* t)
{
    g_hash_table_remove_all(t);
    g_hash_table_unref(t);
}
void g_hash_table_foreach(GHashTable* t, GHFunc fn, gpointer data)
{
    VfHash* h = vf_hash(t);
    guint i;
    for (i = 0; i < h->n; i++) fn(h->key[i], h->value[i], data);
}
void g_hash_table_steal_all(GHashTable* t) { vf_hash(t)->n = 0; }
guint g_hash_table_foreach_remove(GHashTable* t, GHRFunc fn, gpointer data)
{
    VfHash* h = vf_hash(t);
    guint i = 0, n = 0;
    while (i < h->n) {
        if (fn(h->key[i], h->value[i], data)) { vf_hash_take(h, h->key[i], TRUE); n++; }
        else i++;
    }
    return n;
}
gpointer g_hash_table_find(GHashTable* t, GHRFunc fn, gpointer data)
{
    VfHash* h = vf_hash(t);
    guint i;
    for (i = 0; i < h->n; i++) if (fn(h->key[i], h->value[i], data)) return h->value[i];
    return NULL;
}
typedef struct { VfHash* h; gpointer d2, d3; int next; gboolean d5; gpointer d6; } VfIter;
void g_hash_table_iter_init(GHashTableIter* it, GHashTable* t)
{
    VfIter* i = (VfIter*)it;
    i->h = vf_hash(t);
    i->next = 0;
}
gboolean g_hash_table_iter_next(GHashTableIter* it, gpointer* k, gpointer* v)
{
    VfIter* i = (VfIter*)it;
    if ((guint)i->next >= i->h->n) return FALSE;
    if (k) *k = i->h->key[i->next];
    if (v) *v = i->h->value[i->next];
    i->next++;
    return TRUE;
}
void g_hash_table_iter_remove(GHashTableIter* it)
{
    VfIter* i = (VfIter*)it;
    i->next--;
    vf_hash_take(i->h, i->h->key[i->next], TRUE);
}
void g_hash_table_iter_steal(GHashTableIter* it)
{
    VfIter* i = (VfIter*)it;
    i->next--;
    vf_hash_take(i->h, i->h->key[i->next], FALSE);
}
GList* g_list_append(GList* l, gpointer data);
GList* g_hash_table_get_keys(GHashTable* t)
{
    VfHash* h = vf_hash(t);
    GList* l = NULL;
    guint i;
    for (i = 0; i < h->n; i++) l = g_list_append(l, h->key[i]);
    return l;
}
GList* g_hash_table_get_values(GHashTable* t)
{
    VfHash* h = vf_hash(t);
    GList* l = NULL;
    guint i;
    for (i = 0; i < h->n; i++) l = g_list_append(l, h->value[i]);
    return l;
}
