/* Object vectors: C16 */
#include "vf.h"
#include "gutil_objv.h"
#include "gutil_misc.h"

#ifndef MAXN
#define MAXN 3
#endif
#define CAP (2 * MAXN + 3)
#ifdef DISTINCT        /* All elements are different objects */
#define NOBJ (MAXN + 1)
#define CODES(n) 0
#define ELEMENT(code,i) (i)
#else
#define NOBJ 3
#define CODES(n) ((n) > 0 ? (1 << (n)) - 1 : 0)
#define ELEMENT(code,i) (((code) >> (i)) & 1)
#endif

static GObject* obj[NOBJ];     /* Every element is one of these */
static guint refs0[NOBJ];

typedef struct { GObject* v[CAP]; int n; } List;

static void begin(void)
{
    int i;
    for (i = 0; i < NOBJ; i++) {
        obj[i] = g_object_new(G_TYPE_OBJECT, NULL);
        refs0[i] = obj[i]->ref_count;
    }
}
static int occurrences(const List* l, const GObject* o)
{
    int i, n = 0;
    for (i = 0; i < l->n; i++) if (l->v[i] == o) n++;
    return n;
}
/* One reference per occurrence, besides the harness' own */
static void account(const List* a, const List* b)
{
    int i;
    for (i = 0; i < NOBJ; i++) {
        VF_CHECK(obj[i]->ref_count == refs0[i] + (guint)(occurrences(a, obj[i]) + (b ? occurrences(b, obj[i]) : 0)),
            "one reference per occurrence");
    }
}
static void end(gint64 live, GObject** objv)
{
    int i;
    gutil_objv_free(objv);
    for (i = 0; i < NOBJ; i++) {
        VF_CHECK(obj[i]->ref_count == refs0[i], "all references are released with the vector");
        g_object_unref(obj[i]);
    }
    VF_NOLEAK(live);
}
static void same(GObject** objv, const List* l)
{
    int i;
    for (i = 0; i < l->n; i++) VF_CHECK(objv[i] == l->v[i], "elements are the expected objects in the expected order");
    if (l->n) VF_CHECK(!objv[l->n], "vector is terminated");
    else VF_CHECK(!objv || !objv[0], "vector is empty");
}
/* The vector number `code` of all vectors of up to MAXN elements out of 2
 * objects; n < 0: no vector at all */
static GObject** make(List* l, int n, int code)
{
    l->n = 0;
    if (n < 0) {
        return NULL;
    } else {
        GObject** objv = g_new(GObject*, n + 1);
        int i;
        for (i = 0; i < n; i++) {
            objv[i] = l->v[l->n++] = g_object_ref(obj[ELEMENT(code, i)]);
        }
        objv[n] = NULL;
        return objv;
    }
}
#define VECTORS(lo) VF_SPLIT(n, lo, MAXN) VF_SPLIT(code, 0, CODES(n))
#define LAST (n == (MAXN) && code == CODES(n) / 2)

static int find(const List* l, const GObject* o)
{
    int i;
    for (i = 0; i < l->n; i++) if (l->v[i] == o) return i;
    return -1;
}
static int find_last(const List* l, const GObject* o)
{
    int i;
    for (i = l->n - 1; i >= 0; i--) if (l->v[i] == o) return i;
    return -1;
}
static void del(List* l, int pos)
{
    int i;
    for (i = pos; i + 1 < l->n; i++) l->v[i] = l->v[i + 1];
    l->n--;
}
static void ins(List* l, int pos, GObject* o)
{
    int i;
    for (i = l->n; i > pos; i--) l->v[i] = l->v[i - 1];
    l->v[pos] = o;
    l->n++;
}

void h_read(void)
{
    VECTORS(-1) {
        const gint64 live = vf_live();
        List l;
        GObject** objv;
        GObject** copy;
        int i;
        const guint32 pos = vf_u32();

        begin();
        objv = make(&l, n, code);
        for (i = 0; i < NOBJ; i++) {
            VF_CHECK(gutil_objv_find(objv, obj[i]) == find(&l, obj[i]), "first index");
            VF_CHECK(gutil_objv_find_last(objv, obj[i]) == find_last(&l, obj[i]), "last index");
            VF_CHECK(!gutil_objv_contains(objv, obj[i]) == (find(&l, obj[i]) < 0), "membership");
        }
        VF_CHECK(gutil_objv_find(objv, NULL) == -1 && gutil_objv_find_last(objv, NULL) == -1 && !gutil_objv_contains(objv, NULL), "nothing is not an element");
        VF_CHECK(gutil_objv_first(objv) == (l.n ? l.v[0] : NULL), "first element");
        VF_CHECK(gutil_objv_last(objv) == (l.n ? l.v[l.n - 1] : NULL), "last element");
        for (i = 0; i < l.n; i++) VF_CHECK(gutil_objv_at(objv, i) == l.v[i], "element by position");
        if (pos >= (guint32) l.n) VF_CHECK(!gutil_objv_at(objv, pos), "nothing beyond the end");
        VF_CHECK(!gutil_objv_at(objv, l.n) && !gutil_objv_at(objv, G_MAXINT64), "nothing beyond the end");
        account(&l, NULL);

        copy = gutil_objv_copy(objv);
        VF_CHECK(!copy == !objv, "copy, if there is something to copy");
        if (copy) {
            VF_CHECK(copy != objv, "copy is a new vector");
            same(copy, &l);
            account(&l, &l);
        }
        same(objv, &l);
        VF_CHECK(gutil_objv_equal(copy, objv), "copy is equal");
        gutil_objv_free(copy);
        account(&l, NULL);
        end(live, objv);
        if (LAST) VF_REACH("read");
        VF_STOP();
    }
}
void h_equal(void)
{
    VECTORS(-1) VF_SPLIT(n2, -1, MAXN) VF_SPLIT(code2, 0, CODES(n2)) {
        const gint64 live = vf_live();
        List l1, l2;
        GObject **v1, **v2;
        int i;
        gboolean eq;

        begin();
        v1 = make(&l1, n, code);
        v2 = make(&l2, n2, code2);
        eq = l1.n == l2.n;
        for (i = 0; i < l1.n && eq; i++) eq = l1.v[i] == l2.v[i];
        VF_CHECK(!gutil_objv_equal(v1, v2) == !eq, "equality is that of the lists");
        VF_CHECK(gutil_objv_equal(v1, v1), "equal to itself");
        account(&l1, &l2);
        gutil_objv_free(v2);
        end(live, v1);
        if (LAST && n2 == n && code == code2) VF_REACH("equal");
        VF_STOP();
    }
}
void h_add(void)
{
    VECTORS(-1) VF_SPLIT(which, -1, NOBJ - 1) {
        const gint64 live = vf_live();
        List l;
        GObject** objv;
        begin();
        objv = gutil_objv_add(make(&l, n, code), which < 0 ? NULL : obj[which]);
        if (which >= 0) ins(&l, l.n, obj[which]);
        same(objv, &l);
        account(&l, NULL);
        objv = gutil_objv_add(objv, obj[0]);
        ins(&l, l.n, obj[0]);
        same(objv, &l);
        account(&l, NULL);
        end(live, objv);
        if (LAST && which == NOBJ - 1) VF_REACH("add");
        VF_STOP();
    }
}
void h_insert(void)
{
    VECTORS(-1) VF_SPLIT(which, -1, NOBJ - 1) VF_SPLIT(pos, 0, (n < 0 ? 0 : n) + 2) {
        const gint64 live = vf_live();
        List l;
        GObject** objv;
        begin();
        objv = make(&l, n, code);
        objv = gutil_objv_insert(objv, which < 0 ? NULL : obj[which], pos == l.n + 2 ? G_MAXSIZE : pos);
        if (which >= 0) ins(&l, pos > l.n ? l.n : pos, obj[which]);
        same(objv, &l);
        account(&l, NULL);
        end(live, objv);
        if (LAST && which == NOBJ - 1 && !pos) VF_REACH("insert");
        VF_STOP();
    }
}
void h_append(void)
{
    VECTORS(-1) VF_SPLIT(n2, -1, 2) VF_SPLIT(code2, 0, CODES(n2)) {
        const gint64 live = vf_live();
        List l, l2;
        GObject **objv, **tail;
        int i;
        begin();
        objv = make(&l, n, code);
        tail = make(&l2, n2, code2);
        objv = gutil_objv_append(objv, tail);
        same(tail, &l2);
        for (i = 0; i < l2.n; i++) ins(&l, l.n, l2.v[i]);
        same(objv, &l);
        account(&l, &l2);
        gutil_objv_free(tail);
        same(objv, &l);
        account(&l, NULL);
        end(live, objv);
        if (LAST && n2 == 2) VF_REACH("append");
        VF_STOP();
    }
}
void h_remove(void)
{
    VECTORS(-1) VF_SPLIT(which, -1, NOBJ - 1) VF_SPLIT(all, 0, 1) {
        const gint64 live = vf_live();
        List l;
        GObject** objv;
        int i;
        begin();
        objv = gutil_objv_remove(make(&l, n, code), which < 0 ? NULL : obj[which], all);
        if (which >= 0) {
            while ((i = find(&l, obj[which])) >= 0) {
                del(&l, i);
                if (!all) break;
            }
        }
        same(objv, &l);
        account(&l, NULL);
        objv = gutil_objv_add(objv, obj[NOBJ - 1]);
        ins(&l, l.n, obj[NOBJ - 1]);
        same(objv, &l);
        account(&l, NULL);
        end(live, objv);
        if (LAST && all && which == 0) VF_REACH("remove");
        VF_STOP();
    }
}
void h_remove_at(void)
{
    VECTORS(-1) VF_SPLIT(pos, 0, (n < 0 ? 0 : n) + 2) {
        const gint64 live = vf_live();
        List l;
        GObject** objv;
        begin();
        objv = make(&l, n, code);
        objv = gutil_objv_remove_at(objv, pos == l.n + 2 ? G_MAXSIZE : pos);
        if (pos < l.n) del(&l, pos);
        same(objv, &l);
        account(&l, NULL);
        objv = gutil_objv_add(objv, obj[NOBJ - 1]);
        ins(&l, l.n, obj[NOBJ - 1]);
        same(objv, &l);
        account(&l, NULL);
        end(live, objv);
        if (LAST && !pos) VF_REACH("remove at");
        VF_STOP();
    }
}
void h_new(void)
{
    VF_SPLIT(n, 0, 3) VF_SPLIT(code, 0, CODES(n)) {
        const gint64 live = vf_live();
        List l;
        GObject** objv;
        int i;
        begin();
        l.n = 0;
        for (i = 0; i < n; i++) l.v[l.n++] = obj[ELEMENT(code, i)];
        objv = n == 0 ? gutil_objv_new(NULL, NULL) : n == 1 ? gutil_objv_new(l.v[0], NULL) :
            n == 2 ? gutil_objv_new(l.v[0], l.v[1], NULL) : gutil_objv_new(l.v[0], l.v[1], l.v[2], NULL);
        VF_CHECK(objv != NULL, "new vector");
        same(objv, &l);
        account(&l, NULL);
        end(live, objv);
        if (n == 3 && code == CODES(n)) VF_REACH("new");
        VF_STOP();
    }
}
/* An object that only the vector holds goes away with its last occurrence */
static int gone;
static void on_gone(gpointer p, GObject* o) { gone++; }
void h_last_ref(void)
{
    VF_SPLIT(n, 1, MAXN) VF_SPLIT(pos, 0, n - 1) VF_SPLIT(op, 0, 3) {
        const gint64 live = vf_live();
        List l;
        GObject** objv;
        GObject* o;
        begin();
        gone = 0;
        objv = make(&l, n, 0);
        o = g_object_new(G_TYPE_OBJECT, NULL);
        g_object_weak_ref(o, on_gone, NULL);
        objv = gutil_objv_insert(objv, o, pos);
        ins(&l, pos, o);
        VF_CHECK(o->ref_count == 2, "the vector has its own reference");
        g_object_unref(o);
        VF_CHECK(!gone, "the vector keeps its objects alive");
        switch (op) {
        case 0: objv = gutil_objv_remove_at(objv, pos); break;
        case 1: objv = gutil_objv_remove(objv, o, FALSE); break;
        case 2: objv = gutil_objv_remove(objv, o, TRUE); break;
        default: gutil_objv_free(objv); objv = NULL; break;
        }
        VF_CHECK(gone == 1, "the last reference is released");
        if (objv) {
            del(&l, pos);
            same(objv, &l);
            account(&l, NULL);
        }
        end(live, objv);
        if (n == MAXN && op == 0) VF_REACH("last ref");
        VF_STOP();
    }
}
