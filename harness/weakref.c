/* Reference-counted weak references: C29 */
#include "vf.h"
#include "gutil_weakref.h"

#ifndef STEPS
#define STEPS 2
#endif

static GObject* obj[2];
static gboolean alive[2];
static int target;              /* -1: none */
static int gone[2];
static void object_gone(gpointer data, GObject* o) { gone[(int*)data - gone]++; }
static GUtilWeakRef* ref;
static int refs;

static void check(void)
{
    GObject* o = gutil_weakref_get(ref);
    int i;

    if (target >= 0 && alive[target]) {
        VF_CHECK(o == obj[target], "current object is returned while it is alive");
        VF_CHECK(o->ref_count == 2, "with a new reference");
        g_object_unref(o);
    } else {
        VF_CHECK(!o, "nothing is returned after the object is gone or replaced");
    }
    for (i = 0; i < 2; i++) {
        VF_CHECK(gone[i] == !alive[i], "weak reference doesn't keep the object alive or drop it");
        if (alive[i]) VF_CHECK(obj[i]->ref_count == 1, "no other references are taken or dropped");
    }
}
static void drop(int i)
{
    if (alive[i]) {
        alive[i] = FALSE;
        g_object_unref(obj[i]);
    }
}
static void op(int k)
{
    switch (k) {
    case 0: case 1:
        if (alive[k]) {
            gutil_weakref_set(ref, obj[k]);
            target = k;
        }
        break;
    case 2:
        gutil_weakref_set(ref, NULL);
        target = -1;
        break;
    case 3: case 4:
        drop(k - 3);
        break;
    case 5:
        VF_CHECK(gutil_weakref_ref(ref) == ref, "reference is returned");
        refs++;
        break;
    case 6:
        if (refs > 1) { refs--; gutil_weakref_unref(ref); }
        break;
    }
    check();
}
#define OPS 7
void h_weakref(void)
{
    VF_SPLIT(init, -1, 0) VF_SPLIT(o1, 0, OPS - 1) VF_SPLIT(o2, 0, OPS - 1) VF_SPLIT(o3, STEPS > 2 ? 0 : -1, STEPS > 2 ? OPS - 1 : -1) {
        const gint64 live = vf_live();
        int i;

        for (i = 0; i < 2; i++) {
            gone[i] = 0;
            alive[i] = TRUE;
            obj[i] = g_object_new(G_TYPE_OBJECT, NULL);
            g_object_weak_ref(obj[i], object_gone, gone + i);
        }
        target = init;
        refs = 1;
        ref = gutil_weakref_new(init < 0 ? NULL : obj[0]);
        check();
        op(o1);
        op(o2);
        if (o3 >= 0) op(o3);
        while (refs > 1) { refs--; gutil_weakref_unref(ref); check(); }
        gutil_weakref_unref(ref);
        for (i = 0; i < 2; i++) {
            if (alive[i]) VF_CHECK(!gone[i] && obj[i]->ref_count == 1, "objects aren't affected by the end of the weak reference");
            drop(i);
            VF_CHECK(gone[i] == 1, "objects aren't affected by the end of the weak reference");
        }
        VF_NOLEAK(live);
        if (!init && o1 == OPS - 1 && o2 == OPS - 1) VF_REACH("last");
        VF_STOP();
    }
}
void h_nothing(void)
{
    const gint64 live = vf_live();
    GObject* o = g_object_new(G_TYPE_OBJECT, NULL);

    VF_CHECK(!gutil_weakref_ref(NULL), "nothing");
    VF_CHECK(!gutil_weakref_get(NULL), "nothing");
    gutil_weakref_set(NULL, o);
    gutil_weakref_set(NULL, NULL);
    gutil_weakref_unref(NULL);
    VF_CHECK(o->ref_count == 1, "nothing changes");
    g_object_unref(o);
    VF_NOLEAK(live);
    VF_END("end");
}
