/* Clock change notification: C37 */
#include "vf.h"
#include "gutil_timenotify.h"
#include <sys/timerfd.h>
#include <time.h>
#include "vf_fd.h"

#ifndef FIRST
#define FIRST 0
#endif
#ifndef OP0
#define OP0 0
#endif
#ifndef OP1
#define OP1 0
#endif
#ifndef STEPS
#define STEPS 2
#endif

static int create_error, settime_error, nset;
int timerfd_create(int clock, int flags)
{
    VF_CHECK(clock == CLOCK_REALTIME, "it's the wall clock that is watched");
    if (create_error) { errno = create_error; return -1; }
    return kfd_open();
}
int timerfd_settime(int fd, int flags, const struct itimerspec* t, struct itimerspec* old)
{
    VF_CHECK(fd >= 0 && fd == kfd, "descriptor is open");
    VF_CHECK((flags & 3) == 3, "absolute time, cancelled by clock changes");
    VF_CHECK(t->it_value.tv_sec > 0, "timer is armed");
    nset++;
    if (settime_error) { errno = settime_error; return -1; }
    return 0;
}
static ssize_t kfd_read(void* buf, size_t n)
{
    if (kfd_size < 0) { errno = -kfd_size; return -1; }
    VF_CHECK(n >= 8, "model: buffer is large enough");
    memcpy(buf, kfd_data, 8);
    return 8;
}

static GUtilTimeNotify* notify;     /* All references point here */
static int refs;
#define HANDLERS 3
static gulong hid[HANDLERS];
static int called[HANDLERS], expected[HANDLERS];
static gboolean broken;             /* The channel is gone */
static int action, acted;
static void changed(GUtilTimeNotify* n, void* arg)
{
    const int k = (int)((int*)arg - called);
    VF_CHECK(n == notify, "handler's arguments");
    called[k]++;
    if (!k && !acted && action) {
        acted = 1;
        switch (action) {
        case 1: gutil_time_notify_remove_handler(n, hid[0]); hid[0] = 0; break;
        case 2: if (hid[1]) { gutil_time_notify_remove_handler(n, hid[1]); hid[1] = 0; } break;
        case 3: while (refs) { refs--; gutil_time_notify_unref(n); } break;
        }
    }
}
static int opened_expected;
static void check(void)
{
    int i;
    for (i = 0; i < HANDLERS; i++) VF_CHECK(called[i] == expected[i], "every handler is called once for each change");
    VF_CHECK(kfd_opened == opened_expected, "timer is created by the first user");
    VF_CHECK(nset == kfd_opened, "timer is set");
    VF_CHECK(kfd_closed == kfd_opened - (refs && kfd >= 0), "timer is closed after the last user is gone");
    VF_CHECK(refs || kfd < 0, "timer is closed after the last user is gone");
}
static void gone(void)
{
    int i;
    for (i = 0; i < HANDLERS; i++) hid[i] = 0;
}
static void get(void)
{
    GUtilTimeNotify* n;
    if (!refs && !create_error) opened_expected++;
    n = gutil_time_notify_new();
    VF_CHECK(n != NULL, "there's always a notifier");
    if (refs) VF_CHECK(n == notify, "notifier is shared");
    else { notify = n; broken = create_error != 0; }
    refs++;
    create_error = settime_error = 0;
}
static void clock_change(int error)
{
    int i;
    if (refs && !broken) {
        for (i = 0; i < HANDLERS; i++) {
            if (hid[i] && !(i == 1 && hid[0] && action == 2 && !acted)) expected[i]++;
        }
        kfd_size = -error;
        kfd_set(G_IO_IN);
        g_main_context_iteration(NULL, FALSE);
        if (!refs) gone();
        VF_CHECK(kfd_reads >= 1, "change is acknowledged");
    } else {
        VF_CHECK(!g_main_context_iteration(NULL, FALSE), "nothing happens");
    }
}
static void step(int op)
{
    switch (op) {
    case 0: get(); break;
    case 1: create_error = EMFILE; get(); break;
    case 2: settime_error = EINVAL; get(); break;
    case 3:
        if (refs) {
            refs--;
            gutil_time_notify_unref(notify);
            if (!refs) gone();
        }
        break;
    case 4:
        if (refs) {
            VF_CHECK(gutil_time_notify_ref(notify) == notify, "reference is returned");
            refs++;
        }
        break;
    case 5: case 6: case 7: /* Another handler, which may do something */
        if (refs && !hid[0]) { hid[0] = gutil_time_notify_add_handler(notify, changed, called); action = op - 4; acted = 0; }
        else if (refs && !hid[1]) hid[1] = gutil_time_notify_add_handler(notify, changed, called + 1);
        break;
    case 8: if (refs && !hid[2]) hid[2] = gutil_time_notify_add_handler(notify, changed, called + 2); break;
    case 9: if (hid[2]) { gutil_time_notify_remove_handler(notify, hid[2]); hid[2] = 0; } break;
    case 10: clock_change(ECANCELED); break;
    case 11:    /* Descriptor is no good anymore */
        if (refs && !broken) {
            kfd_set(G_IO_HUP);
            g_main_context_iteration(NULL, FALSE);
            broken = TRUE;
        }
        break;
    }
    check();
}
#define OPS 12
void h_timenotify(void)
{
    int i;
#ifndef VF_CBMC
    gutil_time_notify_unref(gutil_time_notify_new());   /* GLib allocates something for good */
    g_main_context_iteration(NULL, FALSE);
#endif
    {
    VF_SPLIT(o2, 0, OPS - 1) VF_SPLIT(o3, STEPS > 2 ? 0 : -1, STEPS > 2 ? OPS - 1 : -1) {
        const gint64 live = vf_live();

        kfd_opened = kfd_closed = kfd_reads = nset = opened_expected = 0;
        refs = action = acted = 0;
        create_error = settime_error = 0;
        broken = FALSE;
        gone();
        for (i = 0; i < HANDLERS; i++) called[i] = expected[i] = 0;
        step(FIRST);
        step(OP0);
        step(OP1);
        step(o2);
        if (o3 >= 0) step(o3);
        step(10);
        while (refs) step(3);
        VF_CHECK(!g_main_context_iteration(NULL, FALSE), "nothing is left in the event loop");

        /* Fresh start */
        step(0);
        step(8);
        step(10);
        step(3);
        VF_NOLEAK(live);
        if (o2 == OPS - 1) VF_REACH("last");
        VF_STOP();
    }
    }
}
void h_nothing(void)
{
    const gulong id = vf_u32();
    GUtilTimeNotify* n;
    VF_CHECK(!gutil_time_notify_ref(NULL), "nothing");
    gutil_time_notify_unref(NULL);
    VF_CHECK(!gutil_time_notify_add_handler(NULL, changed, NULL), "nothing");
    gutil_time_notify_remove_handler(NULL, id);
    VF_CHECK(!kfd_opened, "nothing happens");
    n = gutil_time_notify_new();
    VF_CHECK(!gutil_time_notify_add_handler(n, NULL, NULL), "nothing");
    gutil_time_notify_remove_handler(n, 0);
    gutil_time_notify_unref(n);
    VF_CHECK(kfd_opened == 1 && kfd_closed == 1, "nothing happens");
    VF_END("end");
}
