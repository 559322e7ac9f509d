/* Event loop: contexts, idle sources and descriptor watches. Source
 * identifiers are per context, like in GLib. */
#include "vf.h"
#include "vf_loop.h"

#define MAXSRC 6
#define MAXCTX 3

typedef struct vf_context VfContext;
struct vf_source {
    int refs;
    guint id;
    gint priority;
    VfContext* context;
    gboolean attached;
    gboolean destroyed;
    gboolean in_call;
    GSourceFunc func;
    gpointer data;
    GDestroyNotify notify;
    /* Descriptor watches */
    GIOChannel* channel;
    GIOCondition condition;
};
typedef struct vf_source VfSource;

struct vf_context {
    int refs;
    guint next_id;
    VfSource* src[MAXSRC];
    guint n;
};

static VfContext vf_default_context = { 1, 1 };
static VfContext* vf_ctx_stack[MAXCTX];
static guint vf_ctx_depth;

#define CTX(c) ((c) ? (VfContext*)(c) : &vf_default_context)

GMainContext* g_main_context_default(void) { return (GMainContext*)&vf_default_context; }
GMainContext* g_main_context_get_thread_default(void)
{
    return vf_ctx_depth ? (GMainContext*)vf_ctx_stack[vf_ctx_depth - 1] : NULL;
}
GMainContext* g_main_context_new(void)
{
    VfContext* c = VF_NEW(VfContext);
    c->refs = 1;
    c->next_id = 1;
    return (GMainContext*)c;
}
GMainContext* g_main_context_ref(GMainContext* c) { CTX(c)->refs++; return c; }
void g_main_context_push_thread_default(GMainContext* c)
{
    VfContext* p = CTX(c);
    __CPROVER_assert(vf_ctx_depth < MAXCTX, "model: number of contexts");
    p->refs++;
    vf_ctx_stack[vf_ctx_depth++] = p == &vf_default_context ? NULL : p;
}

static void vf_source_unref(VfSource* s)
{
    __CPROVER_assert(s->refs > 0, "source is alive");
    if (!--s->refs) {
        const GDestroyNotify notify = s->notify;
        const gpointer data = s->data;
        s->notify = NULL;
        if (notify) notify(data);
        if (s->channel) g_io_channel_unref(s->channel);
        g_free(s);
    }
}

/* The callback data goes away with the source, but not while in use */
static void vf_source_drop_callback(VfSource* s)
{
    const GDestroyNotify notify = s->notify;
    const gpointer data = s->data;
    if (!s->in_call) {
        s->notify = NULL;
        s->data = NULL;
        s->func = NULL;
        if (notify) notify(data);
    }
}

static void vf_source_destroy(VfSource* s)
{
    if (!s->destroyed) {
        s->destroyed = TRUE;
        if (s->context) {
            VfContext* c = s->context;
            guint i, k;
            /* The context doesn't know it anymore */
            for (i = 0; i < c->n; i++) {
                if (c->src[i] == s) {
                    for (k = i; k + 1 < c->n; k++) c->src[k] = c->src[k + 1];
                    c->n--;
                    break;
                }
            }
            s->context = NULL;
            vf_source_drop_callback(s);
            vf_source_unref(s);
        }
    }
}

void g_main_context_unref(GMainContext* g)
{
    VfContext* c = CTX(g);
    if (!--c->refs) {
        while (c->n) vf_source_destroy(c->src[0]);
        g_free(c);
    }
}
void g_main_context_pop_thread_default(GMainContext* g)
{
    VfContext* c = CTX(g);
    __CPROVER_assert(vf_ctx_depth > 0, "GLib critical warning: context is on the stack");
    vf_ctx_depth--;
    g_main_context_unref(g);
}

static VfSource* vf_source_new(void)
{
    VfSource* s = VF_NEW(VfSource);
    s->refs = 1;
    return s;
}
GSource* g_idle_source_new(void)
{
    VfSource* s = vf_source_new();
    s->priority = G_PRIORITY_DEFAULT_IDLE;
    return (GSource*)s;
}
void g_source_set_priority(GSource* g, gint prio) { ((VfSource*)g)->priority = prio; }
void g_source_set_callback(GSource* g, GSourceFunc fn, gpointer data, GDestroyNotify notify)
{
    VfSource* s = (VfSource*)g;
    __CPROVER_assert(!s->notify, "model: callback is set once");
    s->func = fn;
    s->data = data;
    s->notify = notify;
}
guint g_source_attach(GSource* g, GMainContext* ctx)
{
    VfSource* s = (VfSource*)g;
    VfContext* c = CTX(ctx);
    __CPROVER_assert(!s->context && !s->destroyed, "GLib critical warning: source is not attached");
    __CPROVER_assert(c->n < MAXSRC, "model: number of sources");
    s->context = c;
    s->id = c->next_id++;
    s->refs++;
    c->src[c->n++] = s;
    return s->id;
}
GSource* g_source_ref(GSource* g) { ((VfSource*)g)->refs++; return g; }
void g_source_unref(GSource* g)
{
    __CPROVER_assert(g != NULL, "GLib critical warning: source");
    vf_source_unref((VfSource*)g);
}
void g_source_destroy(GSource* g)
{
    __CPROVER_assert(g != NULL, "GLib critical warning: source");
    vf_source_destroy((VfSource*)g);
}
gboolean g_source_is_destroyed(GSource* g) { return ((VfSource*)g)->destroyed; }
guint g_source_get_id(GSource* g) { return ((VfSource*)g)->id; }

GSource* g_main_context_find_source_by_id(GMainContext* ctx, guint id)
{
    VfContext* c = CTX(ctx);
    guint i;
    __CPROVER_assert(id > 0, "GLib critical warning: source identifier");
    for (i = 0; i < c->n; i++) if (c->src[i]->id == id) return (GSource*)c->src[i];
    return NULL;
}
gboolean g_source_remove(guint id)
{
#ifdef VF_CONC
    __CPROVER_assert(!id, "model: there are no event sources");
    return FALSE;
#else
    GSource* s = g_main_context_find_source_by_id(NULL, id);
    __CPROVER_assert(s != NULL, "GLib critical warning: source was not found");
    vf_source_destroy((VfSource*)s);
    return TRUE;
#endif
}
guint g_idle_add_full(gint prio, GSourceFunc fn, gpointer data, GDestroyNotify notify)
{
    VfSource* s = (VfSource*)g_idle_source_new();
    guint id;
    s->priority = prio;
    g_source_set_callback((GSource*)s, fn, data, notify);
    id = g_source_attach((GSource*)s, NULL);
    vf_source_unref(s);
    return id;
}
guint g_idle_add(GSourceFunc fn, gpointer data) { return g_idle_add_full(G_PRIORITY_DEFAULT_IDLE, fn, data, NULL); }

guint g_io_add_watch(GIOChannel* ch, GIOCondition cond, GIOFunc fn, gpointer data)
{
    VfSource* s = vf_source_new();
    guint id;
    s->priority = G_PRIORITY_DEFAULT;
    s->channel = g_io_channel_ref(ch);
    s->condition = cond;
    g_source_set_callback((GSource*)s, (GSourceFunc)fn, data, NULL);
    id = g_source_attach((GSource*)s, NULL);
    vf_source_unref(s);
    return id;
}

static GIOCondition vf_source_condition(VfSource* s)
{
    return s->channel ? vf_channel_condition(s->channel) & (s->condition | G_IO_ERR | G_IO_HUP) : 0;
}
static gboolean vf_source_ready(VfSource* s)
{
    return !s->in_call && (!s->channel || vf_source_condition(s));
}
gboolean g_main_context_pending(GMainContext* ctx)
{
    VfContext* c = CTX(ctx);
    guint i;
    for (i = 0; i < c->n; i++) if (vf_source_ready(c->src[i])) return TRUE;
    return FALSE;
}
gboolean g_main_context_iteration(GMainContext* ctx, gboolean may_block)
{
    VfContext* c = CTX(ctx);
    VfSource* todo[MAXSRC];
    GIOCondition revents[MAXSRC];
    guint i, n = 0;
    gint prio = G_MAXINT;

    for (i = 0; i < c->n; i++) {
        VfSource* s = c->src[i];
        if (vf_source_ready(s) && s->priority < prio) prio = s->priority;
    }
    for (i = 0; i < c->n; i++) {
        VfSource* s = c->src[i];
        if (vf_source_ready(s) && s->priority == prio) {
            revents[n] = vf_source_condition(s);
            s->refs++;
            todo[n++] = s;
        }
    }
    for (i = 0; i < n; i++) {
        VfSource* s = todo[i];
        if (!s->destroyed) {
            gboolean again;
            s->in_call = TRUE;
            again = s->channel ? ((GIOFunc)s->func)(s->channel, revents[i], s->data) : s->func(s->data);
            s->in_call = FALSE;
            if (s->destroyed) vf_source_drop_callback(s);
            else if (!again) vf_source_destroy(s);
        }
        vf_source_unref(s);
    }
    return n > 0;
}
