/* GObject: types, reference counting, weak references and signals. Single
 * threaded. */
#include "vf.h"
#include <stdlib.h>

#define MAXTYPES 4
#define MAXWEAK 16
#define MAXSIG 4
#define MAXHANDLERS 8

typedef struct {
    GType parent;
    guint class_size, instance_size;
    GClassInitFunc class_init;
    GInstanceInitFunc instance_init;
    GObjectClass* klass;
} VfType;

static VfType vf_types[MAXTYPES];
static guint vf_ntypes;
static GObjectClass vf_object_class;
static gboolean vf_object_class_ready;

#define TYPE_ID(i) ((GType)((64 + (i)) << G_TYPE_FUNDAMENTAL_SHIFT))
#define TYPE_INDEX(t) ((guint)((t) >> G_TYPE_FUNDAMENTAL_SHIFT) - 64)
#define IS_STATIC(t) (((t) >> G_TYPE_FUNDAMENTAL_SHIFT) >= 64)

gboolean (g_once_init_enter)(volatile void* p) { return !*(volatile gsize*)p; }
void (g_once_init_leave)(volatile void* p, gsize r) { *(volatile gsize*)p = r; }
gboolean (g_once_init_enter_pointer)(void* p) { return !*(void**)p; }
void (g_once_init_leave_pointer)(void* p, gpointer r) { *(void**)p = r; }
#undef g_intern_static_string
const gchar* g_intern_static_string(const gchar* s) { return s; }

GType g_type_register_static_simple(GType parent, const gchar* name, guint class_size,
    GClassInitFunc class_init, guint instance_size, GInstanceInitFunc instance_init, GTypeFlags flags)
{
    VfType* t = vf_types + vf_ntypes;
    __CPROVER_assert(vf_ntypes < MAXTYPES, "model: number of types");
    t->parent = parent;
    t->class_size = class_size;
    t->instance_size = instance_size;
    t->class_init = class_init;
    t->instance_init = instance_init;
    t->klass = NULL;
    return TYPE_ID(vf_ntypes++);
}
GType g_type_register_static(GType parent, const gchar* name, const GTypeInfo* info, GTypeFlags flags)
{
    return g_type_register_static_simple(parent, name, info->class_size, info->class_init,
        info->instance_size, info->instance_init, flags);
}
void g_type_class_adjust_private_offset(gpointer k, gint* off) { __CPROVER_assert(0, "model: private data"); }
gint g_type_add_instance_private(GType t, gsize size) { __CPROVER_assert(0, "model: private data"); return 0; }
void g_type_ensure(GType t) { }

/* Weak references of all kinds */
typedef struct { GObject* obj; gpointer* ptr; GWeakNotify notify; gpointer data; } VfWeak;
static VfWeak vf_weak[MAXWEAK];
static guint vf_nweak;

static VfWeak* vf_weak_add(GObject* obj)
{
    VfWeak* w;
    guint i;
    for (i = 0; i < vf_nweak; i++) if (!vf_weak[i].obj) break;
    __CPROVER_assert(i < MAXWEAK, "model: number of weak references");
    if (i == vf_nweak) vf_nweak++;
    w = vf_weak + i;
    w->obj = obj;
    w->ptr = NULL;
    w->notify = NULL;
    w->data = NULL;
    return w;
}
static void vf_weak_gone(GObject* obj)
{
    guint i;
    for (i = 0; i < vf_nweak; i++) {
        VfWeak* w = vf_weak + i;
        if (w->obj == obj) {
            w->obj = NULL;
            if (w->ptr) *w->ptr = NULL;
            if (w->notify) w->notify(w->data, obj);
        }
    }
}
static void vf_weak_del(GObject* obj, gpointer* ptr)
{
    guint i;
    for (i = 0; i < vf_nweak; i++) if (vf_weak[i].obj == obj && vf_weak[i].ptr == ptr) { vf_weak[i].obj = NULL; return; }
}

void g_object_weak_ref(GObject* o, GWeakNotify fn, gpointer data)
{
    VfWeak* w = vf_weak_add(o);
    w->notify = fn;
    w->data = data;
}
void g_object_weak_unref(GObject* o, GWeakNotify fn, gpointer data)
{
    guint i;
    for (i = 0; i < vf_nweak; i++) if (vf_weak[i].obj == o && vf_weak[i].notify == fn && vf_weak[i].data == data) { vf_weak[i].obj = NULL; return; }
    __CPROVER_assert(0, "GLib critical warning: no such weak reference");
}
void g_object_add_weak_pointer(GObject* o, gpointer* loc) { vf_weak_add(o)->ptr = loc; }
void g_object_remove_weak_pointer(GObject* o, gpointer* loc) { vf_weak_del(o, loc); }

void g_weak_ref_set(GWeakRef* w, gpointer obj)
{
    gpointer* loc = (gpointer*)w;
    if (*loc != obj) {
        if (*loc) vf_weak_del(*loc, loc);
        *loc = obj;
        if (obj) {
            __CPROVER_assert(((GObject*)obj)->ref_count > 0, "GLib critical warning: weak reference to a dead object");
            vf_weak_add(obj)->ptr = loc;
        }
    }
}
void g_weak_ref_init(GWeakRef* w, gpointer obj) { *(gpointer*)w = NULL; g_weak_ref_set(w, obj); }
void g_weak_ref_clear(GWeakRef* w) { g_weak_ref_set(w, NULL); }
gpointer g_weak_ref_get(GWeakRef* w)
{
    gpointer obj = *(gpointer*)w;
    return obj ? g_object_ref(obj) : NULL;
}

/* Signals */
typedef struct { const gchar* name; GType type; guint nparams; guint p[3]; gboolean detailed; } VfSignal;
typedef struct { gpointer obj; guint sig; GQuark detail; GCallback cb; gpointer data; gulong id; GClosureNotify notify; gboolean swapped; } VfHandler;
static VfSignal vf_sig[MAXSIG];
static guint vf_nsig;
static VfHandler vf_handlers[MAXHANDLERS];
static guint vf_nhandlers;
static gulong vf_last_handler;

guint g_signal_new(const gchar* name, GType type, GSignalFlags flags, guint off, GSignalAccumulator acc,
    gpointer accu_data, GSignalCMarshaller marsh, GType ret, guint n, ...)
{
    VfSignal* s = vf_sig + vf_nsig;
    guint i;
    va_list va;
    __CPROVER_assert(vf_nsig < MAXSIG && n <= 3, "model: number of signals and parameters");
    s->name = name;
    s->type = type;
    s->nparams = n;
    s->detailed = (flags & G_SIGNAL_DETAILED) != 0;
    va_start(va, n);
    for (i = 0; i < n; i++) s->p[i] = (guint) va_arg(va, GType);
    va_end(va);
    return ++vf_nsig;
}

#define MAXQUARK 8
static const gchar* vf_quarks[MAXQUARK];
static guint vf_nquarks;
#undef g_quark_from_string
#undef g_quark_from_static_string
#undef g_quark_try_string
GQuark g_quark_from_string(const gchar* s)
{
    guint i;
    if (!s) return 0;
    for (i = 0; i < vf_nquarks; i++) if (!strcmp(vf_quarks[i], s)) return i + 1;
    __CPROVER_assert(vf_nquarks < MAXQUARK, "model: number of quarks");
    vf_quarks[vf_nquarks++] = s;
    return vf_nquarks;
}
GQuark g_quark_from_static_string(const gchar* s) { return g_quark_from_string(s); }
GQuark g_quark_try_string(const gchar* s)
{
    guint i;
    for (i = 0; s && i < vf_nquarks; i++) if (!strcmp(vf_quarks[i], s)) return i + 1;
    return 0;
}
const gchar* g_quark_to_string(GQuark q) { return q ? vf_quarks[q - 1] : NULL; }

gulong g_signal_connect_data(gpointer obj, const gchar* name, GCallback cb, gpointer data, GClosureNotify notify, GConnectFlags flags)
{
    guint i, k, sig = 0;
    GQuark detail = 0;
    VfHandler* h;

    for (i = 0; i < vf_nsig; i++) {
        const gchar* n = vf_sig[i].name;
        for (k = 0; n[k] && n[k] == name[k]; k++);
        if (!n[k] && (!name[k] || (name[k] == ':' && name[k + 1] == ':'))) {
            sig = i + 1;
            if (name[k]) {
                __CPROVER_assert(vf_sig[i].detailed, "GLib critical warning: signal has no details");
                detail = g_quark_from_string(name + k + 2);
            }
        }
    }
    __CPROVER_assert(sig, "GLib critical warning: unknown signal");
    for (i = 0; i < vf_nhandlers; i++) if (!vf_handlers[i].id) break;
    __CPROVER_assert(i < MAXHANDLERS, "model: number of handlers");
    if (i == vf_nhandlers) vf_nhandlers++;
    h = vf_handlers + i;
    h->obj = obj;
    h->sig = sig;
    h->detail = detail;
    h->cb = cb;
    h->data = data;
    h->notify = notify;
    h->swapped = (flags & G_CONNECT_SWAPPED) != 0;
    h->id = ++vf_last_handler;
    return h->id;
}

static void vf_handler_drop(VfHandler* h)
{
    const GClosureNotify fn = h->notify;
    const gpointer data = h->data;
    h->id = 0;
    h->obj = NULL;
    if (fn) fn(data, NULL);
}

void g_signal_handler_disconnect(gpointer obj, gulong id)
{
    guint i;
    for (i = 0; i < vf_nhandlers; i++) {
        VfHandler* h = vf_handlers + i;
        if (h->id == id && h->obj == obj && id) { vf_handler_drop(h); return; }
    }
    __CPROVER_assert(0, "GLib critical warning: no such handler");
}
gboolean g_signal_handler_is_connected(gpointer obj, gulong id)
{
    guint i;
    for (i = 0; i < vf_nhandlers; i++) if (vf_handlers[i].id == id && vf_handlers[i].obj == obj && id) return TRUE;
    return FALSE;
}
static void vf_handlers_gone(gpointer obj)
{
    guint i;
    for (i = 0; i < vf_nhandlers; i++) if (vf_handlers[i].id && vf_handlers[i].obj == obj) vf_handler_drop(vf_handlers + i);
}

/* Handlers run in the order of their identifiers. Handlers added by a handler
 * don't run, removed ones don't run either. */
void g_signal_emit(gpointer obj, guint sig, GQuark detail, ...)
{
    const gulong last = vf_last_handler;
    gulong done = 0;
    guint k, i;
    va_list va;
    guint64 a[3] = { 0, 0, 0 };
    gpointer p[3] = { NULL, NULL, NULL };
    VfSignal* s = vf_sig + (sig - 1);

    __CPROVER_assert(sig && sig <= vf_nsig, "GLib critical warning: unknown signal");
    va_start(va, detail);
    for (i = 0; i < s->nparams; i++) {
        const guint t = s->p[i] & ~G_SIGNAL_TYPE_STATIC_SCOPE;
        if (t == G_TYPE_UINT || t == G_TYPE_INT || t == G_TYPE_BOOLEAN) a[i] = va_arg(va, guint);
        else if (t == G_TYPE_STRING || t == G_TYPE_POINTER) p[i] = va_arg(va, gpointer);
        else __CPROVER_assert(0, "model: type of signal parameter");
    }
    va_end(va);
    g_object_ref(obj);
    for (k = 0; k < MAXHANDLERS; k++) {
        VfHandler* next = NULL;
        for (i = 0; i < vf_nhandlers; i++) {
            VfHandler* h = vf_handlers + i;
            if (h->id > done && h->id <= last && h->obj == obj && h->sig == sig &&
                (!h->detail || h->detail == detail) && (!next || h->id < next->id)) next = h;
        }
        if (!next) break;
        done = next->id;
        __CPROVER_assert(!next->swapped, "model: swapped handler");
        if (s->nparams == 0) {
            ((void (*)(gpointer, gpointer))next->cb)(obj, next->data);
        } else if (s->nparams == 3) {
            ((void (*)(gpointer, guint, guint, gpointer, gpointer))next->cb)(obj, (guint)a[0], (guint)a[1], p[2], next->data);
        } else {
            __CPROVER_assert(0, "model: number of signal parameters");
        }
    }
    g_object_unref(obj);
}

guint g_signal_lookup(const gchar* name, GType type)
{
    guint i;
    for (i = 0; i < vf_nsig; i++) if (vf_sig[i].type == type && !strcmp(vf_sig[i].name, name)) return i + 1;
    return 0;
}
guint g_signal_handlers_disconnect_matched(gpointer obj, GSignalMatchType mask, guint sig, GQuark detail, GClosure* c, gpointer fn, gpointer data)
{
    guint i, n = 0;
    __CPROVER_assert(!(mask & ~(G_SIGNAL_MATCH_ID | G_SIGNAL_MATCH_DETAIL | G_SIGNAL_MATCH_FUNC | G_SIGNAL_MATCH_DATA)), "model: kind of match");
    for (i = 0; mask && i < vf_nhandlers; i++) {
        VfHandler* h = vf_handlers + i;
        if (h->id && h->obj == obj && (!(mask & G_SIGNAL_MATCH_ID) || h->sig == sig) &&
            (!(mask & G_SIGNAL_MATCH_DETAIL) || h->detail == detail) &&
            (!(mask & G_SIGNAL_MATCH_FUNC) || (gpointer)h->cb == fn) &&
            (!(mask & G_SIGNAL_MATCH_DATA) || h->data == data)) { vf_handler_drop(h); n++; }
    }
    return n;
}
gboolean g_signal_has_handler_pending(gpointer obj, guint sig, GQuark detail, gboolean blocked)
{
    guint i;
    for (i = 0; i < vf_nhandlers; i++) {
        VfHandler* h = vf_handlers + i;
        if (h->id && h->obj == obj && h->sig == sig && (!h->detail || h->detail == detail)) return TRUE;
    }
    return FALSE;
}

/* Objects */
static void vf_object_finalize(GObject* o) { }
static void vf_object_dispose(GObject* o) { }

static GObjectClass* vf_base_class(void)
{
    if (!vf_object_class_ready) {
        vf_object_class_ready = TRUE;
        vf_object_class.g_type_class.g_type = G_TYPE_OBJECT;
        vf_object_class.finalize = vf_object_finalize;
        vf_object_class.dispose = vf_object_dispose;
    }
    return &vf_object_class;
}

static GObjectClass vf_classes[MAXTYPES];
static GObjectClass* vf_class(GType type)
{
    if (type == G_TYPE_OBJECT) {
        return vf_base_class();
    } else {
        const guint i = TYPE_INDEX(type);
        VfType* t = vf_types + i;
        __CPROVER_assert(IS_STATIC(type) && i < vf_ntypes, "model: known object type");
        if (!t->klass) {
            GObjectClass* k = vf_classes + i;
            __CPROVER_assert(t->class_size == sizeof(GObjectClass), "model: class structure");
            __CPROVER_assert(t->parent == G_TYPE_OBJECT, "model: parent type");
            t->klass = k;
            *k = *vf_base_class();
            k->g_type_class.g_type = type;
            /* That's how G_DEFINE_TYPE defines it */
            if (t->class_init) ((void (*)(gpointer))t->class_init)(k);
        }
        return t->klass;
    }
}
gpointer g_type_class_peek_parent(gpointer k) { return vf_base_class(); }
gpointer g_type_class_ref(GType t) { return vf_class(t); }
void g_type_class_unref(gpointer k) { }
gpointer g_type_class_peek(GType t) { return vf_class(t); }

gpointer g_object_new(GType type, const gchar* first, ...)
{
    GObjectClass* k = vf_class(type);
    GObject* o;

    __CPROVER_assert(!first, "model: no properties");
    if (type == G_TYPE_OBJECT) {
        o = g_malloc0(sizeof(GObject));
        o->g_type_instance.g_class = &k->g_type_class;
        o->ref_count = 1;
    } else {
        VfType* t = vf_types + TYPE_INDEX(type);
        o = g_malloc0(t->instance_size);
        o->g_type_instance.g_class = &k->g_type_class;
        o->ref_count = 1;
        if (t->instance_init) ((void (*)(GTypeInstance*))t->instance_init)(&o->g_type_instance);
    }
    return o;
}
#undef g_object_ref
gpointer g_object_ref(gpointer p)
{
    GObject* o = p;
    __CPROVER_assert(o != NULL, "GLib critical warning: object");
    __CPROVER_assert((gint)o->ref_count > 0, "GLib critical warning: dead object");
    o->ref_count++;
    return o;
}
void g_object_unref(gpointer p)
{
    GObject* o = p;
    __CPROVER_assert(o != NULL, "GLib critical warning: object");
    __CPROVER_assert((gint)o->ref_count > 0, "GLib critical warning: dead object");
    if (o->ref_count > 1) {
        o->ref_count--;
    } else {
        GObjectClass* k = (GObjectClass*)o->g_type_instance.g_class;
        if (k->dispose != vf_object_dispose) k->dispose(o);
        if (o->ref_count > 1) {
            o->ref_count--;
            return;
        }
        vf_handlers_gone(o);
        vf_weak_gone(o);
        o->ref_count--;
        if (k->finalize != vf_object_finalize) k->finalize(o);
        g_free(o);
    }
}
gboolean g_set_object_impl(GObject** p, GObject* o);
void (g_clear_object)(GObject** pp)
{
    GObject* o = *pp;
    if (o) { *pp = NULL; g_object_unref(o); }
}
GTypeInstance* g_type_check_instance_cast(GTypeInstance* i, GType t)
{
    return i;
}
GTypeClass* g_type_check_class_cast(GTypeClass* k, GType t) { return k; }
gboolean g_type_check_instance_is_a(GTypeInstance* i, GType t)
{
    return i && (t == G_TYPE_OBJECT || i->g_class->g_type == t);
}
GType g_object_get_type(void) { return G_TYPE_OBJECT; }
