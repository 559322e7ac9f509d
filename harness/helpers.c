/* Handler, object and event source helpers: C38; versions and alignment: C39 */
/* Same as the library */
#define GLIB_VERSION_MAX_ALLOWED GLIB_VERSION_2_32
#define GLIB_VERSION_MIN_REQUIRED GLIB_VERSION_2_32
#include "vf.h"
#include "gutil_misc.h"
#include "gutil_macros.h"
#include "gutil_version.h"

/* Something with a signal */
typedef struct { GObject object; } Thing;
typedef GObjectClass ThingClass;
GType thing_get_type(void);
G_DEFINE_TYPE(Thing, thing, G_TYPE_OBJECT)
static guint thing_signal;
static void thing_init(Thing* t) { }
static void thing_class_init(ThingClass* k)
{
    thing_signal = g_signal_new("thing", thing_get_type(), G_SIGNAL_RUN_FIRST, 0, NULL, NULL, NULL, G_TYPE_NONE, 0);
}

#ifndef MAXIDS
#define MAXIDS 3
#endif
static int called[MAXIDS + 1];
static void handler(Thing* t, gpointer data) { (*(int*)data)++; }
void h_disconnect(void)
{
    Thing* t;
    g_object_unref(g_object_new(thing_get_type(), NULL));
    /* Present handlers, size of the list */
    {
#ifdef MASKS
    static const int masks[] = { MASKS };
    VF_SPLIT(k, 0, (int) G_N_ELEMENTS(masks) - 1) VF_SPLIT(mask, masks[k], masks[k]) VF_SPLIT(count, MINCOUNT, MAXIDS) VF_SPLIT(how, 0, mask == (1 << MAXIDS) - 1 ? 4 : 0) {
#else
    VF_SPLIT(mask, 0, (1 << MAXIDS) - 1) VF_SPLIT(count, 0, MAXIDS) VF_SPLIT(how, 0, mask == (1 << MAXIDS) - 1 ? 4 : 0) {
#endif
        gulong ids[MAXIDS], was[MAXIDS], other;
        const gboolean acts = how == 0;
        const int n = how == 3 ? -1 : how == 4 ? G_MININT : count;
        int i;

        t = g_object_new(thing_get_type(), NULL);
        for (i = 0; i <= MAXIDS; i++) called[i] = 0;
        other = g_signal_connect(t, "thing", G_CALLBACK(handler), called + MAXIDS);
        for (i = 0; i < MAXIDS; i++) {
            ids[i] = ((mask >> i) & 1) ? g_signal_connect(t, "thing", G_CALLBACK(handler), called + i) : 0;
            was[i] = ids[i];
        }
        gutil_disconnect_handlers(how == 1 ? NULL : t, how == 2 ? NULL : ids, n);
        for (i = 0; i < MAXIDS; i++) {
            VF_CHECK(ids[i] == (acts && i < count ? 0 : was[i]), "identifiers in the list become zero, others stay");
            if (was[i]) VF_CHECK(g_signal_handler_is_connected(t, was[i]) == !(acts && i < count), "handlers in the list are disconnected, others stay");
        }
        VF_CHECK(g_signal_handler_is_connected(t, other), "other handlers stay");
        g_signal_emit(t, thing_signal, 0);
        for (i = 0; i < MAXIDS; i++) VF_CHECK(called[i] == (was[i] && !(acts && i < count)), "handlers in the list are disconnected, others stay");
        VF_CHECK(called[MAXIDS] == 1, "other handlers stay");
        /* Again, nothing is left to do */
        gutil_disconnect_handlers(t, ids, acts ? count : 0);
        VF_CHECK(t->object.ref_count == 1, "no references are taken");
        g_object_unref(t);
        if (mask == (1 << MAXIDS) - 1 && count == MAXIDS && how == 4) VF_REACH("last");
        VF_STOP();
    }
    }
}

static int ran[3], freed[3];
static gboolean run(gpointer data) { (*(int*)data)++; return G_SOURCE_REMOVE; }
static void gone(gpointer data) { freed[(int*)data - ran]++; }
void h_sources(void)
{
    VF_SPLIT(which, 0, 3) VF_SPLIT(how, 0, 2) {
        guint id[3], slot;
        gboolean ok;
        int i;

        for (i = 0; i < 3; i++) {
            ran[i] = freed[i] = 0;
            id[i] = g_idle_add_full(G_PRIORITY_DEFAULT_IDLE, run, ran + i, gone);
        }
        slot = which < 3 ? id[which] : 0;
        ok = how == 0 ? gutil_source_remove(slot) : gutil_source_clear(how == 1 ? &slot : NULL);
        VF_CHECK(ok == (which < 3 && how < 2), "result tells whether there was something to remove");
        VF_CHECK(slot == (which < 3 && how != 1 ? id[which] : 0), "variable is cleared");
        for (i = 0; i < 3; i++) VF_CHECK(freed[i] == (ok && i == which), "this source is removed and nothing else");
        if (how == 1) VF_CHECK(!gutil_source_clear(&slot) && !slot, "nothing to remove anymore");
        while (g_main_context_pending(NULL)) g_main_context_iteration(NULL, FALSE);
        for (i = 0; i < 3; i++) {
            VF_CHECK(ran[i] == !(ok && i == which), "other sources work");
            VF_CHECK(freed[i] == 1, "other sources work");
        }
        if (which == 3 && how == 2) VF_REACH("last");
        VF_STOP();
    }
}

static int nfinal;
static void final(gpointer data, GObject* o) { nfinal++; }
void h_object(void)
{
    VF_SPLIT(n, 0, 3) {
        GObject* o = g_object_new(G_TYPE_OBJECT, NULL);
        int i;

        nfinal = 0;
        g_object_weak_ref(o, final, NULL);
        for (i = 0; i < n; i++) {
            VF_CHECK(gutil_object_ref(o) == o, "same object is returned");
            VF_CHECK((int) o->ref_count == 2 + i, "one reference is taken");
        }
        VF_CHECK(!gutil_object_ref(NULL), "nothing");
        gutil_object_unref(NULL);
        for (i = n; i > 0; i--) {
            VF_CHECK((int) o->ref_count == 1 + i && !nfinal, "one reference is dropped");
            gutil_object_unref(o);
        }
        VF_CHECK(o->ref_count == 1 && !nfinal, "one reference is dropped");
        gutil_object_unref(o);
        VF_CHECK(nfinal == 1, "object is gone with its last reference");
        if (n == 3) VF_REACH("last");
        VF_STOP();
    }
}

/*
 * Versions
 */
#ifndef VERSIONS
#define VERSIONS
#endif
void h_version(void)
{
    const int a = vf_range(0, 0x7f), b = vf_range(0, 0xfff), c = vf_range(0, 0xfff);
    const int d = vf_range(0, 0x7f), e = vf_range(0, 0xfff), f = vf_range(0, 0xfff);
    const int v = GUTIL_VERSION_(a, b, c), w = GUTIL_VERSION_(d, e, f);
    const int order = a != d ? (a < d ? -1 : 1) : b != e ? (b < e ? -1 : 1) : c != f ? (c < f ? -1 : 1) : 0;
    static const char string[] = GUTIL_VERSION_STRING;
    int part = 0, n = 0;
    const char* s;

    VF_CHECK((v < w) == (order < 0) && (v == w) == !order && (v > w) == (order > 0), "order of versions");
    VF_CHECK(GUTIL_VERSION_MAJOR_(v) == a && GUTIL_VERSION_MINOR_(v) == b && GUTIL_VERSION_MICRO_(v) == c, "parts of the version");
    VF_CHECK(GUTIL_VERSION_MAJOR_(v | 0) == a && GUTIL_VERSION_MINOR_(v | 0) == b && GUTIL_VERSION_MICRO_(v | 0) == c, "parts of the version");
    VF_CHECK(GUTIL_VERSION_(a + 0, b | 0, c + 0) == v, "arguments are expressions");
    VF_CHECK(gutil_version_major == GUTIL_VERSION_MAJOR && gutil_version_minor == GUTIL_VERSION_MINOR && gutil_version_micro == GUTIL_VERSION_MICRO, "run time version");
    VF_CHECK(gutil_version() == GUTIL_VERSION, "run time version");
    VF_CHECK(GUTIL_VERSION == GUTIL_VERSION_(GUTIL_VERSION_MAJOR, GUTIL_VERSION_MINOR, GUTIL_VERSION_MICRO), "compile time version");
    for (s = string; ; s++) {
        if (*s >= '0' && *s <= '9') n = 10 * n + (*s - '0');
        else {
            VF_CHECK(n == (part == 0 ? GUTIL_VERSION_MAJOR : part == 1 ? GUTIL_VERSION_MINOR : GUTIL_VERSION_MICRO), "version string");
            part++;
            n = 0;
            if (*s != '.') break;
        }
    }
    VF_CHECK(part == 3 && !*s, "version string");
#define X(a,b,c) \
    VF_CHECK(GUTIL_VERSION_##a##_##b##_##c == (a * 0x1000000 + b * 0x1000 + c), "published version"); \
    VF_CHECK(-GUTIL_VERSION_##a##_##b##_##c == -(a * 0x1000000 + b * 0x1000 + c), "published version"); \
    VF_CHECK(GUTIL_VERSION_##a##_##b##_##c <= GUTIL_VERSION, "published version isn't newer than the current one");
    VERSIONS
    VF_END("end");
}

typedef struct { char c; guint64 first; guint16 field; } Container;
void h_align(void)
{
    const guint64 v = vf_u64();
    const guint32 u = vf_u32();
    const int i = (int) vf_range(0, 0x7ffffff0);
    Container c;

    if (v <= G_MAXUINT64 - 7) {
        VF_CHECK(G_ALIGN2(v) % 2 == 0 && G_ALIGN2(v) >= v && G_ALIGN2(v) - v < 2, "smallest multiple of 2");
        VF_CHECK(G_ALIGN4(v) % 4 == 0 && G_ALIGN4(v) >= v && G_ALIGN4(v) - v < 4, "smallest multiple of 4");
        VF_CHECK(G_ALIGN8(v) % 8 == 0 && G_ALIGN8(v) >= v && G_ALIGN8(v) - v < 8, "smallest multiple of 8");
        VF_REACH("64 bits");
    }
    if (u <= G_MAXUINT32 - 7) {
        VF_CHECK(G_ALIGN2(u) % 2 == 0 && G_ALIGN2(u) >= u && G_ALIGN2(u) - u < 2, "smallest multiple of 2");
        VF_CHECK(G_ALIGN4(u) % 4 == 0 && G_ALIGN4(u) >= u && G_ALIGN4(u) - u < 4, "smallest multiple of 4");
        VF_CHECK(G_ALIGN8(u) % 8 == 0 && G_ALIGN8(u) >= u && G_ALIGN8(u) - u < 8, "smallest multiple of 8");
        VF_REACH("32 bits");
    }
    VF_CHECK(G_ALIGN2(i) % 2 == 0 && G_ALIGN2(i) >= i && G_ALIGN2(i) - i < 2, "smallest multiple of 2");
    VF_CHECK(G_ALIGN4(i) % 4 == 0 && G_ALIGN4(i) >= i && G_ALIGN4(i) - i < 4, "smallest multiple of 4");
    VF_CHECK(G_ALIGN8(i) % 8 == 0 && G_ALIGN8(i) >= i && G_ALIGN8(i) - i < 8, "smallest multiple of 8");
    /* In the middle of expressions */
    VF_CHECK(G_ALIGN2(i | 0) == G_ALIGN2(i) && G_ALIGN4(i | 0) == G_ALIGN4(i) && G_ALIGN8(i | 0) == G_ALIGN8(i), "argument is an expression");
    VF_CHECK(-G_ALIGN2(5) == -6 && -G_ALIGN4(5) == -8 && -G_ALIGN8(5) == -8 && 16 - G_ALIGN4(7) == 8, "result is an operand");
    VF_CHECK(G_CAST(&c.field, Container, field) == &c && G_CAST(&c.c, Container, c) == &c && G_CAST(&c.first, Container, first) == &c, "container of the field");
    VF_END("end");
}
