/* File watches: C35, C36 */
#include "vf.h"
#include "gutil_inotify.h"
#include <sys/inotify.h>
#include <limits.h>
#include "vf_fd.h"

#ifndef OP0
#define OP0 0
#endif
#ifndef OP1
#define OP1 0
#endif
#ifndef STEPS
#define STEPS 3
#endif

/* The kernel. Watch descriptors aren't reused, same path means same watch
 * descriptor, unless the watch has been removed. */
#define MAXWD 8
static const char path_a[] = "/a", path_b[] = "/b";
static int init_error, add_error;
static int last_wd;
static const char* wd_path[MAXWD];
static guint32 wd_mask[MAXWD];
static int wd_removed[MAXWD];
static guint32 want_mask;

int inotify_init(void)
{
    if (init_error) { errno = init_error; return -1; }
    return kfd_open();
}
int inotify_init1(int flags) { return inotify_init(); }
int inotify_add_watch(int fd, const char* path, uint32_t mask)
{
    const char* known = path[1] == 'a' ? path_a : path_b;
    int i;
    VF_CHECK(fd >= 0 && fd == kfd, "descriptor is open");
    VF_CHECK(path[0] == '/' && path[1] == known[1] && !path[2], "path is what has been asked for");
    if (add_error) { errno = add_error; return -1; }
    VF_CHECK((mask & ~IN_MASK_ADD) == want_mask, "mask is what has been asked for");
    for (i = 1; i <= last_wd; i++) if (wd_path[i] == known && !wd_removed[i]) return i;
    wd_path[++last_wd] = known;
    wd_mask[last_wd] = mask;
    wd_removed[last_wd] = 0;
    return last_wd;
}
int inotify_rm_watch(int fd, int wd)
{
    VF_CHECK(fd >= 0 && fd == kfd, "descriptor is open");
    VF_CHECK(wd > 0 && wd <= last_wd && !wd_removed[wd], "watch is removed once");
    wd_removed[wd]++;
    return 0;
}
static ssize_t kfd_read(void* buf, size_t n)
{
    /* Only complete events are returned */
    size_t used = 0;
    if (kfd_size < 0) { errno = -kfd_size; return -1; }
    while (used < kfd_size) {
        const struct inotify_event* e = (void*)(kfd_data + used);
        const size_t len = sizeof(*e) + e->len;
        if (used + len > n && used + len <= kfd_size) break;
        if (used + len > kfd_size) { used = kfd_size; break; }  /* Cut off */
        used += len;
    }
    if (!used && kfd_size) { errno = EINVAL; return -1; }
    VF_CHECK(used <= n, "model: buffer is large enough");
    memcpy(buf, kfd_data, used);
    return used;
}
static void put_event(int wd, guint32 mask, guint32 cookie, guint32 len, const char* name, guint n)
{
    const guint32 head[4] = { (guint32) wd, mask, cookie, len };
    guint i;
    /* Byte by byte, so that constants stay constants */
    for (i = 0; i < 16; i++) kfd_data[kfd_size++] = (guint8)(head[i / 4] >> (8 * (i % 4)));
    for (i = 0; i < n; i++) kfd_data[kfd_size++] = name[i];
}
static void kernel_reset(void)
{
    init_error = add_error = 0;
    last_wd = 0;
    kfd_size = 0;
    kfd_reads = kfd_opened = kfd_closed = 0;
}
static GUtilInotifyWatch* new_watch(const char* path, guint32 mask)
{
    GUtilInotifyWatch* w;
    want_mask = mask;
    w = gutil_inotify_watch_new(path, mask);
    return w;
}
static void warm_up(void)
{
#ifndef VF_CBMC
    /* GLib allocates something for good */
    kernel_reset();
    want_mask = 1;
    GUtilInotifyWatch* w = gutil_inotify_watch_new(path_a, 1);
    gutil_inotify_watch_unref(w);
    while (g_main_context_iteration(NULL, FALSE));
#endif
    kernel_reset();
}

/*
 * Delivery of events (C35)
 */
#define MAXLOG 8
#define NAMELEN 16
static struct {
    int handler;
    guint mask, cookie;
    char name[NAMELEN];
    gboolean has_name;
} got[MAXLOG], want[MAXLOG];
static int ngot, nwant;
static GUtilInotifyWatch* watch[2];
static gulong hid[3];
static const int watch_of[3] = { 0, 0, 1 };
static gboolean connected[3];       /* Handlers the oracle expects to run */
static gboolean listening[2];       /* Watches the oracle expects to work */
static int action, acted;
static void handler(GUtilInotifyWatch* w, guint mask, guint cookie, const char* name, void* arg)
{
    const int k = (int)((gulong*)arg - hid);
    guint i;

    VF_CHECK(ngot < MAXLOG, "handler is called once for each event");
    VF_CHECK(k == 2 || k < 2, "handler's argument");
    got[ngot].handler = k;
    got[ngot].mask = mask;
    got[ngot].cookie = cookie;
    got[ngot].has_name = name != NULL;
    if (name) for (i = 0; i < NAMELEN; i++) got[ngot].name[i] = name[i];
    ngot++;
    if (k == 0 && !acted) {
        acted = 1;
        switch (action) {
        case 1: gutil_inotify_watch_remove_handler(w, hid[0]); hid[0] = 0; break;
        case 2: gutil_inotify_watch_remove_handler(w, hid[1]); hid[1] = 0; break;
        case 3: gutil_inotify_watch_destroy(watch[0]); watch[0] = NULL; break;
        case 4: gutil_inotify_watch_destroy(watch[1]); watch[1] = NULL; break;
        case 5:
            gutil_inotify_watch_destroy(watch[0]); watch[0] = NULL;
            gutil_inotify_watch_destroy(watch[1]); watch[1] = NULL;
            break;
        case 6: gutil_inotify_watch_unref(watch[0]); watch[0] = NULL; break;
        case 7: gutil_inotify_watch_unref(watch[1]); watch[1] = NULL; break;
        }
    }
}
#define ACTIONS 8
static void expect_event(int wd, guint32 mask, guint32 cookie, const char* name, int n)
{
    int k, i;
    gboolean run[3];

    for (k = 0; k < 3; k++) run[k] = (wd == 1 || wd == 2) && watch_of[k] == wd - 1 && connected[k] && listening[watch_of[k]];
    for (k = 0; k < 3; k++) {
        if (run[k] && connected[k]) {
            want[nwant].handler = k;
            want[nwant].mask = mask;
            want[nwant].cookie = cookie;
            want[nwant].has_name = n > 0;
            if (n) for (i = 0; i < NAMELEN; i++) want[nwant].name[i] = name[i];
            nwant++;
            if (k == 0 && !acted) {
                acted = 1;
                switch (action) {
                case 1: connected[0] = FALSE; break;
                case 2: connected[1] = FALSE; break;
                case 3: case 6: listening[0] = FALSE; break;
                case 4: case 7: listening[1] = FALSE; break;
                case 5: listening[0] = listening[1] = FALSE; break;
                }
            }
        }
    }
}
static void check_events(void)
{
    int i, k;
    VF_CHECK(ngot == nwant, "each event is delivered once to each handler of its watch and to nobody else");
    for (i = 0; i < nwant; i++) {
        VF_CHECK(got[i].handler == want[i].handler, "order of delivery");
        VF_CHECK(got[i].mask == want[i].mask, "event mask");
        VF_CHECK(got[i].cookie == want[i].cookie, "event cookie");
        VF_CHECK(got[i].has_name == want[i].has_name, "file name");
        if (want[i].has_name) for (k = 0; k < NAMELEN; k++) VF_CHECK(got[i].name[k] == want[i].name[k], "file name");
    }
    ngot = nwant = 0;
}
#ifndef ACTION
#define ACTION 0
#endif
#ifndef CUTLO
#define CUTLO 0
#endif
#ifndef CUTS
#define CUTS 0
#endif
#ifndef BATCHES
#define BATCHES 1
#endif
static void set_up(void)
{
    int k;
    kernel_reset();
    watch[0] = new_watch(path_a, IN_ALL_EVENTS);
    watch[1] = new_watch(path_b, IN_ALL_EVENTS);
    for (k = 0; k < 3; k++) {
        hid[k] = gutil_inotify_watch_add_handler(watch[watch_of[k]], handler, hid + k);
        VF_CHECK(hid[k] != 0, "handler is added");
        connected[k] = TRUE;
    }
    listening[0] = listening[1] = TRUE;
    ngot = nwant = acted = 0;
    action = 0;
}
static void tear_down(void)
{
    int k;
    for (k = 0; k < 2; k++) gutil_inotify_watch_unref(watch[k]);
    VF_CHECK(kfd_opened == 1 && kfd_closed == 1, "channel is opened and closed once");
    for (k = 1; k <= last_wd; k++) VF_CHECK(wd_removed[k] == 1, "watch is removed once");
}
void h_events(void)
{
    static const int wds[] = { 1, 2, 7, -1 };
    warm_up();
    {
    /* Two events and a cut off one */
    VF_SPLIT(w1, 0, 1) VF_SPLIT(w2, 0, 3) VF_SPLIT(names, 0, 2) VF_SPLIT(cut, CUTLO, CUTS) {
        const gint64 live = vf_live();
        int k, b, acted_saved;

        set_up();
        action = ACTION;
        for (b = 0; b < BATCHES; b++) {
            kfd_size = 0;
            acted_saved = acted;
            for (k = 0; k < 2; k++) {
                const guint32 mask = vf_u32(), cookie = vf_u32();
                const int n = (names >> k) & 1 ? NAMELEN : 0;
                const int wd = wds[(b ? !k : k) ? w2 : w1];
                char name[NAMELEN];
                int i;
                for (i = 0; i < n; i++) name[i] = (char) vf_u8();
                put_event(wd, mask, cookie, n, name, n);
                expect_event(wd, mask, cookie, name, n);
            }
            acted = acted_saved;
            if (cut) put_event(1, IN_CREATE, 0, cut == 1 ? 17 : cut == 2 ? 0xfffffff0 : 0xffffffff, "0123456789abcdef", 16);
            if (kfd < 0) break;     /* No watches left */
            kfd_set(G_IO_IN);
            g_main_context_iteration(NULL, FALSE);
            check_events();
            VF_CHECK(kfd_reads == b + 1, "all events are read at once");
        }
        tear_down();
        VF_NOLEAK(live);
        if (w1 == 1 && w2 == 3 && names == 2 && cut == CUTS) VF_REACH("last");
        VF_STOP();
    }
    }
}
/* The longest possible name and no name at all */
void h_longest(void)
{
    warm_up();
    {
    VF_SPLIT(len, 0, 1) {
        const gint64 live = vf_live();
        static char name[NAME_MAX + 1];
        const guint32 mask = vf_u32(), cookie = vf_u32();
        int i;

        set_up();
        for (i = 0; i < NAME_MAX; i++) name[i] = 'a';
        for (i = 0; i < 3; i++) name[i] = (char) vf_u8();
        put_event(2, mask, cookie, len ? NAME_MAX + 1 : 0, name, len ? NAME_MAX + 1 : 0);
        expect_event(2, mask, cookie, name, len);
        kfd_set(G_IO_IN);
        g_main_context_iteration(NULL, FALSE);
        check_events();
        tear_down();
        VF_NOLEAK(live);
        if (len) VF_REACH("last");
        VF_STOP();
    }
    }
}
/* Two watches for the same path: both see the events */
void h_same_path(void)
{
    const guint32 cookie = vf_u32();
    warm_up();
    kernel_reset();
    ngot = nwant = acted = action = 0;
    watch[0] = new_watch(path_a, IN_ALL_EVENTS);
    watch[1] = new_watch(path_a, IN_ALL_EVENTS);
    hid[0] = gutil_inotify_watch_add_handler(watch[0], handler, hid);
    hid[2] = gutil_inotify_watch_add_handler(watch[1], handler, hid + 2);
    put_event(1, IN_MODIFY, cookie, 0, NULL, 0);
    kfd_set(G_IO_IN);
    g_main_context_iteration(NULL, FALSE);
    VF_CHECK(ngot == 2, "every watch for the same file sees the event");
    VF_END("end");
}
void h_same_path_gone(void)
{
    warm_up();
    kernel_reset();
    watch[0] = new_watch(path_a, IN_ALL_EVENTS);
    watch[1] = new_watch(path_a, IN_ALL_EVENTS);
    gutil_inotify_watch_destroy(watch[0]);
    VF_CHECK(!wd_removed[1], "watch is active until it's destroyed");
    VF_END("end");
}

/*
 * Lifetimes (C36)
 */
typedef struct { GUtilInotifyWatch* w; GUtilInotifyWatchCallback* cb; int refs; int wd; gboolean stopped; } Slot;
static Slot slot[2];
static int opened_expected;
static int removed_expected[MAXWD];
static int ncb;
static void cb_event(GUtilInotifyWatch* w, guint mask, guint cookie, const char* name, void* arg) { if (arg == &ncb) ncb++; }
static gboolean any(void) { return slot[0].refs || slot[1].refs; }
static void check_kernel(void)
{
    int i;
    VF_CHECK(kfd_opened == opened_expected, "channel is opened by the first watch");
    VF_CHECK(kfd_closed == kfd_opened - any(), "channel is closed after the last watch is gone");
    for (i = 1; i <= last_wd; i++) VF_CHECK(wd_removed[i] == removed_expected[i], "each watch is removed exactly once");
}
static void release(Slot* s)
{
    s->refs--;
    if (!s->refs) {
        if (!s->stopped) removed_expected[s->wd]++;
        if (s->cb) gutil_inotify_watch_callback_free(s->cb);
        else gutil_inotify_watch_unref(s->w);
        s->cb = NULL;
    } else {
        gutil_inotify_watch_unref(s->w);
    }
}
/* how: 0 watch, 1 callback */
static void create(int k, int how)
{
    Slot* s = slot + k;
    const gboolean was = any();
    if (!s->refs) {
        const char* path = k ? path_b : path_a;
        want_mask = 0x105 + k;
        if (!init_error || was) opened_expected += !was;
        s->stopped = FALSE;
        if (how) {
            s->cb = gutil_inotify_watch_callback_new(path, want_mask, cb_event, &ncb);
            s->w = NULL;
        } else {
            s->w = gutil_inotify_watch_new(path, want_mask);
        }
        if (add_error || (init_error && !was)) {
            VF_CHECK(!s->w && !s->cb, "nothing is returned when something fails");
        } else {
            VF_CHECK(s->w || s->cb, "watch is returned");
            s->refs = 1;
            s->wd = last_wd;
            removed_expected[last_wd] = 0;
        }
    }
    init_error = add_error = 0;
}
static void step(int op)
{
    switch (op) {
    case 0: create(0, 0); break;
    case 1: create(1, 0); break;
    case 2: /* Destroyed */
        if (slot[0].refs) {
            if (!slot[0].stopped) removed_expected[slot[0].wd]++;
            slot[0].stopped = TRUE;
            slot[0].refs--;
            gutil_inotify_watch_destroy(slot[0].w);
        }
        break;
    case 3: if (slot[0].refs) release(slot); break;
    case 4:
        if (slot[0].refs) {
            VF_CHECK(gutil_inotify_watch_ref(slot[0].w) == slot[0].w, "reference is returned");
            slot[0].refs++;
        }
        break;
    case 5: add_error = ENOENT; create(1, 0); break;
    case 6: init_error = EMFILE; create(1, 0); break;
    case 7: create(1, 1); break;
    case 8: if (slot[1].refs) release(slot + 1); break;
    case 9: add_error = EACCES; create(1, 1); break;
    case 10: /* Something is wrong with the channel */
        if (kfd >= 0) {
#ifdef VF_CBMC
            kfd_set(G_IO_HUP);
#else
            if (kfd_other >= 0) kfd_set(G_IO_HUP);
#endif
            g_main_context_iteration(NULL, FALSE);
        }
        break;
    case 11:
        if (kfd >= 0 && !kfd_condition) {
            kfd_size = -EIO;
            kfd_set(G_IO_IN);
            g_main_context_iteration(NULL, FALSE);
        }
        break;
    }
    check_kernel();
}
#define OPS 12
void h_lifetimes(void)
{
    warm_up();
    {
    VF_SPLIT(o2, 0, OPS - 1) VF_SPLIT(o3, STEPS > 2 ? 0 : -1, STEPS > 2 ? OPS - 1 : -1) {
        const gint64 live = vf_live();
        int k;

        kernel_reset();
        for (k = 0; k < 2; k++) slot[k].refs = 0;
        opened_expected = 0;
        ncb = 0;
        step(OP0);
        step(OP1);
        step(o2);
        if (o3 >= 0) step(o3);
        for (k = 0; k < 2; k++) while (slot[k].refs) { release(slot + k); check_kernel(); }
        VF_CHECK(kfd < 0, "channel is closed after the last watch is gone");
        VF_CHECK(!g_main_context_iteration(NULL, FALSE), "nothing is left in the event loop");

        /* Start again */
        create(1, 1);
        check_kernel();
        kfd_size = 0;
        put_event(last_wd, 1, 0, 0, NULL, 0);
        kfd_set(G_IO_IN);
        g_main_context_iteration(NULL, FALSE);
        VF_CHECK(ncb == 1, "new watch works");
        release(slot + 1);
        check_kernel();
        VF_NOLEAK(live);
        if (o2 == OPS - 1) VF_REACH("last");
        VF_STOP();
    }
    }
}
void h_nothing(void)
{
    const guint32 mask = vf_u32();
    warm_up();
    {
    const gint64 live = vf_live();
    const gulong id = vf_u32();
    GUtilInotifyWatch* w;

    VF_CHECK(!gutil_inotify_watch_new(NULL, mask), "nothing");
    VF_CHECK(!gutil_inotify_watch_callback_new(NULL, mask, cb_event, NULL), "nothing");
    VF_CHECK(!gutil_inotify_watch_ref(NULL), "nothing");
    gutil_inotify_watch_unref(NULL);
    gutil_inotify_watch_destroy(NULL);
    gutil_inotify_watch_callback_free(NULL);
    gutil_inotify_watch_remove_handler(NULL, id);
    VF_CHECK(!gutil_inotify_watch_add_handler(NULL, cb_event, NULL), "nothing");
    VF_CHECK(!kfd_opened, "nothing happens");
    want_mask = mask & ~IN_MASK_ADD;
    w = gutil_inotify_watch_new(path_a, want_mask);
    VF_CHECK(!gutil_inotify_watch_add_handler(w, NULL, NULL), "nothing");
    gutil_inotify_watch_remove_handler(w, 0);
    gutil_inotify_watch_unref(w);
    VF_NOLEAK(live);
    VF_END("end");
    }
}
