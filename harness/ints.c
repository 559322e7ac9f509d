/* Integer arrays: C21..C24 */
#include "vf.h"
#include "gutil_ints.h"
#include "gutil_intarray.h"

#ifndef MAXN
#define MAXN 3
#endif

/* Release notifications */
static int freed[2];
static void on_free(gpointer p) { (*(int*)p)++; }

/* An array of n symbolic numbers of the given kind of ownership */
enum { COPY, TAKE, STATIC, CUSTOM, FREE_OTHER, KINDS };
static GUtilInts* make(int kind, int n, int* v, int* buf, gpointer* owner)
{
    GUtilInts* ints;
    int i;

    *owner = NULL;
    for (i = 0; i < n; i++) v[i] = vf_int();
    switch (kind) {
    case TAKE:
        {
            int* p = g_new(int, n);
            for (i = 0; i < n; i++) p[i] = v[i];
            ints = gutil_ints_new_take(p, n);
            VF_CHECK(gutil_ints_get_data(ints, NULL) == p, "taken data is used as is");
        }
        return ints;
    case COPY:
        for (i = 0; i < n; i++) buf[i] = v[i];
        ints = gutil_ints_new(buf, n);
        for (i = 0; i < n; i++) buf[i] = ~v[i]; /* It's a copy */
        return ints;
    default:
        for (i = 0; i < n; i++) buf[i] = v[i];
        if (kind == STATIC) ints = gutil_ints_new_static(buf, n);
        else if (kind == CUSTOM) ints = gutil_ints_new_with_free_func(buf, n, on_free, freed);
        else ints = gutil_ints_new_with_free_func(buf, n, g_free, *owner = g_malloc(8));
        VF_CHECK(gutil_ints_get_data(ints, NULL) == buf, "given data is used as is");
        return ints;
    }
}
static void shows(GUtilInts* ints, const int* v, guint n)
{
    guint i, count = ~0u;
    const int* data = gutil_ints_get_data(ints, &count);

    VF_CHECK(count == n && gutil_ints_get_count(ints) == n, "number of elements");
    VF_CHECK(gutil_ints_get_data(ints, NULL) == data, "data pointer");
    if (n) {
        for (i = 0; i < n; i++) VF_CHECK(data[i] == v[i], "elements");
    } else {
        VF_CHECK(!data && !ints, "no array");
    }
}
/* Plain copy, releasing the array */
static void unref_to_data(GUtilInts* ints, const int* v, guint n, gboolean want_count)
{
    guint i, count = ~0u;
    int* data = gutil_ints_unref_to_data(ints, want_count ? &count : NULL);
    if (want_count) VF_CHECK(count == n, "number of elements");
    VF_CHECK(!data == !n, "data, if any");
    for (i = 0; i < n; i++) {
        VF_CHECK(data[i] == v[i], "elements");
        data[i] = 0; /* It's writable */
    }
    g_free(data);
}

/* Slices at any offset and of any size */
void h_slice(void)
{
    VF_SPLIT(n, 1, MAXN) {
        const gint64 live = vf_live();
        int v[MAXN], buf[MAXN];
        gpointer owner;
        GUtilInts* ints;
        GUtilInts* slice;
        const guint off = vf_u32(), count = vf_u32();
        guint got = ~0u;
        const int* data;

        freed[0] = 0;
        ints = make(CUSTOM, n, v, buf, &owner);
        slice = gutil_ints_new_from_ints(ints, off, count);
        VF_CHECK(!slice == !(count && off < (guint) n), "slice, unless it's empty");
        data = gutil_ints_get_data(slice, &got);
        if (slice) {
            VF_CHECK(data == buf + off, "slice starts at the offset");
            VF_CHECK(got == MIN(count, n - off), "slice ends at the count or with the parent");
            VF_CHECK(gutil_ints_get_count(slice) == got, "number of elements");
        } else {
            VF_CHECK(!data && !got, "no slice");
        }
        gutil_ints_unref(ints);
        VF_CHECK(freed[0] == (slice ? 0 : 1), "data lives as long as the slice");
        gutil_ints_unref(slice);
        VF_CHECK(freed[0] == 1, "data is released once");
        VF_NOLEAK(live);
        if (slice && got == 1 && n == MAXN) VF_REACH("slice");
        VF_STOP();
    }
}
/* Ownership: array, slice, slice of the slice, additional reference; released
 * in any order, in any way */
void h_release(void)
{
    VF_SPLIT(kind, KIND, KIND) VF_SPLIT(n, 1, MAXN) VF_SPLIT(off, 0, n - 1) VF_SPLIT(order, 0, 5) VF_SPLIT(how, 0, 7) {
        const gint64 live = vf_live();
        int v[MAXN], buf[MAXN];
        static const int perm[6][3] = { {0,1,2}, {0,2,1}, {1,0,2}, {1,2,0}, {2,0,1}, {2,1,0} };
        gpointer owner;
        GUtilInts* a[3];
        guint cnt[3];
        int* val[3];
        int i, k;

        freed[0] = 0;
        a[0] = make(kind, n, v, buf, &owner);
        shows(a[0], v, n);
        a[1] = gutil_ints_new_from_ints(a[0], off, n);
        shows(a[1], v + off, n - off);
        a[2] = gutil_ints_new_from_ints(a[1], n - off - 1, 1);
        shows(a[2], v + n - 1, 1);
        VF_CHECK(gutil_ints_ref(a[0]) == a[0], "reference");
        val[0] = v; cnt[0] = n;
        val[1] = v + off; cnt[1] = n - off;
        val[2] = v + n - 1; cnt[2] = 1;
        if ((how & 1) && (how & 2)) unref_to_data(a[0], v, n, TRUE); else gutil_ints_unref(a[0]);
        VF_CHECK(!freed[0], "data is still referenced");
        for (i = 0; i < 3; i++) {
            k = perm[order][i];
            VF_CHECK(!freed[0], "data is still referenced");
            shows(a[k], val[k], cnt[k]);
            if ((how >> k) & 1) unref_to_data(a[k], val[k], cnt[k], i & 1);
            else gutil_ints_unref(a[k]);
        }
        VF_CHECK(freed[0] == (kind == CUSTOM), "data is released exactly once");
        VF_NOLEAK(live);
        if (n == MAXN && off == 0 && how == 7 && order == 5) VF_REACH("release");
        VF_STOP();
    }
}
/* Single owner */
void h_owner(void)
{
    VF_SPLIT(kind, 0, KINDS - 1) VF_SPLIT(n, 1, MAXN) VF_SPLIT(how, 0, 3) {
        const gint64 live = vf_live();
        int v[MAXN], buf[MAXN];
        gpointer owner;
        GUtilInts* a;
        freed[0] = 0;
        a = make(kind, n, v, buf, &owner);
        shows(a, v, n);
        if (how & 2) {
            gutil_ints_ref(a);
            unref_to_data(a, v, n, TRUE);
            VF_CHECK(!freed[0], "data is still referenced");
            shows(a, v, n);
        }
        if (how & 1) unref_to_data(a, v, n, TRUE); else gutil_ints_unref(a);
        VF_CHECK(freed[0] == (kind == CUSTOM), "data is released exactly once");
        VF_NOLEAK(live);
        if (n == MAXN && kind == KINDS - 1 && how == 1) VF_REACH("owner");
        VF_STOP();
    }
}
void h_nothing(void)
{
    int x = 1;
    guint n = 1;
    const int k = vf_int();
    VF_CHECK(!gutil_ints_new(NULL, k) && !gutil_ints_new(&x, 0) && !gutil_ints_new_static(&x, 0) && !gutil_ints_new_static(NULL, k), "nothing to refer to");
    VF_CHECK(!gutil_ints_new_with_free_func(NULL, k, on_free, freed) && !gutil_ints_new_take(NULL, k), "nothing to refer to");
    VF_CHECK(!gutil_ints_new_from_ints(NULL, k, k) && !gutil_ints_ref(NULL), "nothing to refer to");
    gutil_ints_unref(NULL);
    VF_CHECK(!gutil_ints_get_data(NULL, &n) && n == 0 && !gutil_ints_get_count(NULL) && !gutil_ints_get_data(NULL, NULL), "nothing there");
    n = 1;
    VF_CHECK(!gutil_ints_unref_to_data(NULL, &n) && n == 0 && !gutil_ints_unref_to_data(NULL, NULL), "nothing there");
    VF_CHECK(gutil_ints_find(NULL, k) < 0 && !gutil_ints_contains(NULL, k), "nothing there");
    VF_CHECK(gutil_ints_equal(NULL, NULL) && !gutil_ints_compare(NULL, NULL) && gutil_ints_hash(NULL) == gutil_ints_hash(NULL), "nothing is equal to nothing");
    VF_END("nothing");
}

/* Order */
static GUtilInts* symbolic(int n, int* v)
{
    int i;
    if (n < 1) return NULL;
    for (i = 0; i < n; i++) v[i] = vf_int();
    return gutil_ints_new_static(v, n);
}
static int sign(int x) { return x < 0 ? -1 : x > 0; }
static gboolean equal(const int* v1, int n1, const int* v2, int n2)
{
    int i;
    if (n1 != n2) return FALSE;
    for (i = 0; i < n1; i++) if (v1[i] != v2[i]) return FALSE;
    return TRUE;
}
void h_pairs(void)
{
    VF_SPLIT(n1, 0, MAXN) VF_SPLIT(n2, 0, MAXN) {
        const gint64 live = vf_live();
        /* Different offsets, for the addresses to differ in the lower bits too */
        int v1[MAXN + 1], space[MAXN + 2], *v2 = space + 1, i;
        GUtilInts* a = symbolic(n1, v1);
        GUtilInts* b = symbolic(n2, v2);
        const gboolean eq = equal(v1, n1, v2, n2);
        const int c = gutil_ints_compare(a, b), c2 = gutil_ints_compare(b, a);
        gboolean prefix = TRUE;

        VF_CHECK(!gutil_ints_equal(a, b) == !eq, "equality means the same elements");
        VF_CHECK((c == 0) == eq, "comparison gives zero exactly for equal arrays");
        VF_CHECK(sign(c) == -sign(c2), "comparison is antisymmetric");
        if (eq) VF_CHECK(gutil_ints_hash(a) == gutil_ints_hash(b), "equal arrays have equal hashes");
        VF_CHECK(gutil_ints_equal(a, a) && !gutil_ints_compare(a, a), "array is equal to itself");
        for (i = 0; i < n1 && i < n2; i++) if (v1[i] != v2[i]) prefix = FALSE;
        if (prefix && n1 < n2) VF_CHECK(c < 0, "prefix is before the longer array");
        gutil_ints_unref(a);
        gutil_ints_unref(b);
        VF_NOLEAK(live);
        if (n1 == MAXN && n2 == MAXN && eq) VF_REACH("pairs");
        VF_STOP();
    }
}
void h_triples(void)
{
    VF_SPLIT(n1, 0, MAXN) VF_SPLIT(n2, 0, MAXN) VF_SPLIT(n3, 0, MAXN) {
        int v1[MAXN + 1], v2[MAXN + 1], v3[MAXN + 1];
        GUtilInts* a = symbolic(n1, v1);
        GUtilInts* b = symbolic(n2, v2);
        GUtilInts* c = symbolic(n3, v3);
        if (gutil_ints_compare(a, b) <= 0 && gutil_ints_compare(b, c) <= 0) {
            VF_CHECK(gutil_ints_compare(a, c) <= 0, "comparison is transitive");
            if (n1 == MAXN && n2 == MAXN && n3 == MAXN) VF_REACH("triples");
        }
        gutil_ints_unref(a);
        gutil_ints_unref(b);
        gutil_ints_unref(c);
        VF_STOP();
    }
}
void h_find(void)
{
    VF_SPLIT(n, 0, MAXN) {
        int v[MAXN + 1], i, pos = -1;
        GUtilInts* a = symbolic(n, v);
        const int x = vf_int();
        for (i = n - 1; i >= 0; i--) if (v[i] == x) pos = i;
        VF_CHECK(gutil_ints_find(a, x) == pos, "first position of the number");
        VF_CHECK(!gutil_ints_contains(a, x) == (pos < 0), "the number is there");
        gutil_ints_unref(a);
        if (n == MAXN && pos == 1) VF_REACH("find");
        VF_STOP();
    }
}

/* Growable array */
#define CAP (MAXN + 6)
typedef struct { int v[CAP]; int n; } List;
static GUtilIntArray* array(int n, List* l)
{
    GUtilIntArray* a;
    int i;
    for (i = 0; i < n; i++) l->v[i] = vf_int();
    l->n = n;
    a = gutil_int_array_new_from_vals(l->v, n);
    return a;
}
static void same(const GUtilIntArray* a, const List* l)
{
    int i;
    VF_CHECK(a->count == (guint) l->n, "number of elements");
    for (i = 0; i < l->n; i++) VF_CHECK(a->data[i] == l->v[i], "elements in order");
}
static void ins(List* l, int pos, int x)
{
    int i;
    for (i = l->n; i > pos; i--) l->v[i] = l->v[i - 1];
    l->v[pos] = x;
    l->n++;
}
static void del(List* l, int pos, int count)
{
    int i;
    for (i = pos; i + count < l->n; i++) l->v[i] = l->v[i + count];
    l->n -= count;
}
/* How many times x is in the array (list) */
static int times(const int* v, int n, int x)
{
    int i, k = 0;
    for (i = 0; i < n; i++) k += (v[i] == x);
    return k;
}
static void array_done(GUtilIntArray* a, List* l)
{
    const int x = vf_int();
    same(a, l);
    VF_CHECK(gutil_int_array_append(a, x) == a, "append");
    ins(l, l->n, x);
    same(a, l);
    VF_CHECK(!gutil_int_array_free(a, TRUE), "contents is gone");
}

void h_append(void)
{
    VF_SPLIT(n, 0, MAXN) VF_SPLIT(op, 0, 5) VF_SPLIT(count, 0, 2) {
        const gint64 live = vf_live();
        List l;
        int x[2], i, k;
        GUtilIntArray* a = array(n, &l);
        const int pos = op - 3;
        x[0] = vf_int();
        x[1] = vf_int();
        same(a, &l);
        if (pos >= 0 && pos > n) VF_STOP();
        if (op == 0) {
            VF_CHECK(gutil_int_array_append_vals(a, x, count) == a, "append");
            k = n;
        } else if (op == 1) {
            VF_CHECK(gutil_int_array_prepend_vals(a, x, count) == a, "prepend");
            k = 0;
        } else if (op == 2) {
            VF_CHECK(gutil_int_array_insert_vals(a, n, x, count) == a, "insert");
            k = n;
        } else {
            VF_CHECK(gutil_int_array_insert_vals(a, pos, x, count) == a, "insert");
            k = pos;
        }
        for (i = 0; i < count; i++) ins(&l, k + i, x[i]);
        same(a, &l);
        if (op == 1) { gutil_int_array_prepend(a, x[1]); ins(&l, 0, x[1]); }
        if (op >= 3) { gutil_int_array_insert(a, pos, x[1]); ins(&l, pos, x[1]); }
        array_done(a, &l);
        VF_NOLEAK(live);
        if (n == MAXN && op == 5 && count == 2) VF_REACH("append");
        VF_STOP();
    }
}
void h_set_count(void)
{
    VF_SPLIT(n, 0, MAXN) VF_SPLIT(count, 0, MAXN + 3) {
        const gint64 live = vf_live();
        List l;
        int i;
        GUtilIntArray* a = array(n, &l);
        VF_CHECK(gutil_int_array_set_count(a, count) == a, "resize");
        VF_CHECK(a->count == (guint) count, "number of elements");
        for (i = 0; i < n && i < count; i++) VF_CHECK(a->data[i] == l.v[i], "kept elements");
        for (i = n; i < count; i++) a->data[i] = l.v[i] = i;
        l.n = count;
        array_done(a, &l);
        VF_NOLEAK(live);
        if (n == MAXN && count == MAXN + 1) VF_REACH("set count");
        VF_STOP();
    }
}
/* Any range, clipped to the contents */
void h_remove_range(void)
{
    VF_SPLIT(n, 0, MAXN) VF_SPLIT(pos, 0, n) VF_SPLIT(count, 0, MAXN + 3) {
        const gint64 live = vf_live();
        List l;
        GUtilIntArray* a = array(n, &l);
        const guint c = count == MAXN + 3 ? G_MAXUINT : count == MAXN + 2 ? G_MAXUINT - pos + 1 : (guint) count;
        VF_CHECK(gutil_int_array_remove_range(a, pos, c) == a, "remove range");
        if (pos < n) del(&l, pos, (int) MIN(c, (guint)(n - pos)));
        same(a, &l);
        array_done(a, &l);
        VF_NOLEAK(live);
        if (n == MAXN && pos == 1 && count == 1) VF_REACH("remove range");
        VF_STOP();
    }
}
/* Positions beyond the end */
void h_remove_far(void)
{
    VF_SPLIT(n, 0, MAXN) VF_SPLIT(op, 0, 2) VF_SPLIT(where, 0, 3) {
        const gint64 live = vf_live();
        List l;
        GUtilIntArray* a = array(n, &l);
        const guint far = where == 0 ? (guint) n : where == 1 ? (guint) n + 1 : where == 2 ? G_MAXINT : G_MAXUINT;
        GUtilIntArray* r = op == 0 ? gutil_int_array_remove_range(a, far, where & 1 ? 1 : G_MAXUINT) :
            op == 1 ? gutil_int_array_remove_index(a, far) : gutil_int_array_remove_index_fast(a, far);
        VF_CHECK(r == a, "same array");
        array_done(a, &l);
        VF_NOLEAK(live);
        if (n == MAXN && op == 2 && where == 3) VF_REACH("remove far");
        VF_STOP();
    }
}
void h_remove_index(void)
{
    VF_SPLIT(n, 1, MAXN) VF_SPLIT(pos, 0, n - 1) VF_SPLIT(fast, 0, 1) {
        const gint64 live = vf_live();
        List l;
        GUtilIntArray* a = array(n, &l);
        if (fast) {
            const int x = vf_int();
            const int before = times(l.v, l.n, x);
            VF_CHECK(gutil_int_array_remove_index_fast(a, pos) == a, "remove");
            VF_CHECK(a->count == (guint)(n - 1), "number of elements");
            VF_CHECK(times(a->data, n - 1, x) == before - (l.v[pos] == x), "the rest is still there");
            gutil_int_array_unref(a);
        } else {
            VF_CHECK(gutil_int_array_remove_index(a, pos) == a, "remove");
            del(&l, pos, 1);
            array_done(a, &l);
        }
        VF_NOLEAK(live);
        if (n == MAXN && pos == 1 && fast) VF_REACH("remove index");
        VF_STOP();
    }
}
/* Removal of values: every pattern of matching elements */
void h_remove_value(void)
{
    VF_SPLIT(n, 0, MAXN) VF_SPLIT(code, 0, (1 << n) - 1) VF_SPLIT(op, 0, 3) {
        const gint64 live = vf_live();
        List l;
        GUtilIntArray* a;
        const int x = XVALUE, other = vf_int();
        int i, k = 0, rest, first = -1;

        l.n = 0;
        for (i = 0; i < n; i++) l.v[l.n++] = ((code >> i) & 1) ? x : XVALUE ^ (i + 1);
        a = gutil_int_array_new_from_vals(l.v, n);
        for (i = n - 1; i >= 0; i--) if ((code >> i) & 1) first = i, k++;
        rest = times(l.v, l.n, other);
        VF_CHECK(gutil_int_array_find(a, x) == first, "first position of the number");
        VF_CHECK(!gutil_int_array_contains(a, x) == !k, "the number is there");
        switch (op) {
        case 0:
            VF_CHECK(!gutil_int_array_remove(a, x) == !k, "remove");
            if (k) del(&l, first, 1);
            array_done(a, &l);
            break;
        case 1:
            VF_CHECK(gutil_int_array_remove_all(a, x) == (guint) k, "number of removed elements");
            for (i = 0; i < l.n; ) if (l.v[i] == x) del(&l, i, 1); else i++;
            array_done(a, &l);
            break;
        case 2:
            VF_CHECK(!gutil_int_array_remove_fast(a, x) == !k, "remove");
            VF_CHECK(a->count == (guint)(n - (k ? 1 : 0)), "number of elements");
            VF_CHECK(times(a->data, n - (k ? 1 : 0), other) == rest - (k && other == x), "the rest is still there");
            gutil_int_array_unref(a);
            break;
        default:
            VF_CHECK(gutil_int_array_remove_all_fast(a, x) == (guint) k, "number of removed elements");
            VF_CHECK(a->count == (guint)(n - k), "number of elements");
            VF_CHECK(times(a->data, n - k, other) == (other == x ? 0 : rest), "the rest is still there");
            gutil_int_array_unref(a);
            break;
        }
        VF_NOLEAK(live);
        if (n == MAXN && op == 3 && code == (1 << n) - 1) VF_REACH("remove value");
        VF_STOP();
    }
}
void h_array_find(void)
{
    VF_SPLIT(n, 0, MAXN) {
        List l;
        GUtilIntArray* a = array(n, &l);
        const int x = vf_int();
        int i, pos = -1;
        for (i = n - 1; i >= 0; i--) if (l.v[i] == x) pos = i;
        VF_CHECK(gutil_int_array_find(a, x) == pos, "first position of the number");
        VF_CHECK(!gutil_int_array_contains(a, x) == (pos < 0), "the number is there");
        same(a, &l);
        gutil_int_array_unref(a);
        if (n == MAXN && pos == 1) VF_REACH("find");
        VF_STOP();
    }
}
/* Ways to create an array and to hand its contents over */
void h_handover(void)
{
    VF_SPLIT(n, 0, MAXN) VF_SPLIT(how, 0, 3) VF_SPLIT(from, 0, 2) {
        const gint64 live = vf_live();
        List l;
        int i;
        guint count = 7;
        GUtilIntArray* a;
        if (from == 0) {
            a = array(n, &l);
        } else {
            l.n = 0;
            if (from == 1) {
                a = gutil_int_array_sized_new(2);
            } else {
                ins(&l, 0, vf_int());
                a = gutil_int_array_new_from_value(l.v[0]);
            }
            same(a, &l);
            for (i = 0; i < n; i++) {
                const int x = vf_int();
                gutil_int_array_append(a, x);
                ins(&l, l.n, x);
            }
        }
        VF_CHECK(gutil_int_array_ref(a) == a, "reference");
        gutil_int_array_unref(a);
        same(a, &l);
        if (how == 0) {
            int* p = gutil_int_array_free(a, FALSE);
            VF_CHECK(!p == !l.n, "contents, if any");
            for (i = 0; i < l.n; i++) VF_CHECK(p[i] == l.v[i], "contents");
            g_free(p);
        } else if (how == 1) {
            GUtilInts* ints = gutil_int_array_free_to_ints(a);
            shows(ints, l.v, l.n);
            gutil_ints_unref(ints);
        } else if (how == 2) {
            VF_CHECK(!gutil_int_array_free(a, TRUE), "no contents");
        } else {
            gutil_int_array_unref(a);
        }
        VF_NOLEAK(live);
        if (n == MAXN && how == 1 && from == 2) VF_REACH("handover");
        VF_STOP();
    }
}
void h_array_nothing(void)
{
    const int k = vf_int();
    VF_CHECK(!gutil_int_array_free(NULL, TRUE) && !gutil_int_array_free(NULL, FALSE) && !gutil_int_array_free_to_ints(NULL) && !gutil_int_array_ref(NULL), "no array");
    gutil_int_array_unref(NULL);
    VF_CHECK(!gutil_int_array_append(NULL, k) && !gutil_int_array_append_vals(NULL, &k, 1) && !gutil_int_array_prepend(NULL, k) &&
        !gutil_int_array_prepend_vals(NULL, &k, 1) && !gutil_int_array_insert(NULL, k, k) && !gutil_int_array_insert_vals(NULL, k, &k, 1) &&
        !gutil_int_array_set_count(NULL, k), "no array");
    VF_CHECK(gutil_int_array_find(NULL, k) < 0 && !gutil_int_array_contains(NULL, k) && !gutil_int_array_remove(NULL, k) &&
        !gutil_int_array_remove_fast(NULL, k) && !gutil_int_array_remove_all(NULL, k) && !gutil_int_array_remove_all_fast(NULL, k), "no array");
    VF_CHECK(!gutil_int_array_remove_index(NULL, k) && !gutil_int_array_remove_index_fast(NULL, k) && !gutil_int_array_remove_range(NULL, k, k), "no array");
    gutil_int_array_sort_ascending(NULL);
    gutil_int_array_sort_descending(NULL);
    VF_END("no array");
}
void h_sort(void)
{
    VF_SPLIT(n, 0, MAXN) VF_SPLIT(desc, 0, 1) {
        const gint64 live = vf_live();
        List l;
        GUtilIntArray* a = array(n, &l);
        const int x = vf_int();
        int i;
        if (desc) gutil_int_array_sort_descending(a); else gutil_int_array_sort_ascending(a);
        VF_CHECK(a->count == (guint) n, "number of elements");
        for (i = 1; i < n; i++) {
            if (desc) VF_CHECK(a->data[i - 1] >= a->data[i], "descending order");
            else VF_CHECK(a->data[i - 1] <= a->data[i], "ascending order");
        }
        VF_CHECK(times(a->data, n, x) == times(l.v, n, x), "permutation of the same numbers");
        gutil_int_array_unref(a);
        VF_NOLEAK(live);
        if (n == MAXN && desc) VF_REACH("sort");
        VF_STOP();
    }
}
