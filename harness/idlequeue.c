/* Idle queues: C27, C28 */
#include "vf.h"
#include "gutil_idlequeue.h"

#ifndef KIND0
#define KIND0 0
#endif
#ifndef N
#define N 3
#endif

enum { RUN_PLAIN, RUN_ADD, RUN_CANCEL_TAG, RUN_CANCEL_ALL, RUN_RELEASE, RUN_ADD_CANCEL, RUN_NOTHING, NRUN };
enum { FREE_PLAIN, FREE_ADD, FREE_CANCEL_TAG, FREE_CANCEL_ALL, FREE_NOTHING, NFREE };
enum { PENDING, RUNNING, RAN, CANCELLED };

#define MAXITEMS 12
typedef struct { int run, free, tag, state, due, may_cancel, destroyed; } Item;
static Item item[MAXITEMS];
static int nitems;
static int pending[MAXITEMS], npending;
static int running;             /* Item that ran last, until its notification */
static int iterating, released, cancelling_all;
static GUtilIdleQueue* q;

static void remove_pending(int k)
{
    int i;
    for (i = k; i + 1 < npending; i++) pending[i] = pending[i + 1];
    npending--;
}
static int add(int run, int free, int tag);

static void check_tags(void)
{
    VF_CHECK(gutil_idle_queue_contains_tag(q, 7) == FALSE, "no item has this tag");
}
static int has_tag(int tag)
{
    int i;
    for (i = 0; i < npending; i++) if (item[pending[i]].tag == tag) return 1;
    return 0;
}
static void check_queries(void)
{
    VF_CHECK(gutil_idle_queue_contains_tag(q, 1) == has_tag(1), "tag query reflects pending items");
    VF_CHECK(gutil_idle_queue_contains_tag(q, 2) == has_tag(2), "tag query reflects pending items");
    check_tags();
}

static void cancel_tag(int tag)
{
    int i;
    for (i = 0; i < npending; i++) {
        const int k = pending[i];
        if (item[k].tag == tag) {
            remove_pending(i);
            item[k].may_cancel = 1;
            if (item[k].free == FREE_NOTHING) item[k].state = CANCELLED;
            VF_CHECK(gutil_idle_queue_cancel_tag(q, tag), "item with this tag is cancelled");
            VF_CHECK(item[k].state == CANCELLED, "cancelled item is notified");
            return;
        }
    }
    if (cancelling_all) gutil_idle_queue_cancel_tag(q, tag); /* May be ahead of it */
    else VF_CHECK(!gutil_idle_queue_cancel_tag(q, tag), "no item has this tag");
}
static void allow_cancel_all(void)
{
    int i;
    for (i = 0; i < npending; i++) {
        Item* it = item + pending[i];
        it->may_cancel = 1;
        if (it->free == FREE_NOTHING) it->state = CANCELLED;
    }
    npending = 0;
}
static void check_cancelled(int n)
{
    int i;
    for (i = 0; i < n; i++) VF_CHECK(item[i].state != PENDING, "cancelled item is notified");
}
static void cancel_all(void)
{
    const int n = nitems;
    allow_cancel_all();
    cancelling_all++;
    gutil_idle_queue_cancel_all(q);
    cancelling_all--;
    check_cancelled(n);
}

static void on_free(gpointer data)
{
    Item* it = data;

    VF_CHECK(!it->destroyed, "destroy notification happens once");
    it->destroyed = 1;
    if (it->state == RUNNING) {
        VF_CHECK(running == it - item, "destroy notification follows the callback");
        it->state = RAN;
        running = -1;
    } else {
        VF_CHECK(it->state == PENDING, "destroy notification happens once");
        if (it->run == RUN_NOTHING && !it->may_cancel) {
            /* There is nothing to run but the turn is the same */
            VF_CHECK(iterating && it->due && npending && pending[0] == it - item, "items are handled in order");
            VF_CHECK(running < 0, "destroy notification follows the callback");
            remove_pending(0);
            it->state = RAN;
        } else {
            VF_CHECK(it->may_cancel || released, "notification of a pending item");
            if (!it->may_cancel) {
                int i;
                for (i = 0; i < npending; i++) if (pending[i] == it - item) break;
                remove_pending(i);
            }
            it->state = CANCELLED;
        }
    }
    switch (it->free) {
    case FREE_ADD: add(RUN_PLAIN, FREE_PLAIN, 2); break;
    case FREE_CANCEL_TAG: cancel_tag(1); break;
    case FREE_CANCEL_ALL: cancel_all(); break;
    }
}
static void on_run(gpointer data)
{
    Item* it = data;

    VF_CHECK(iterating, "callbacks run in the event loop");
    VF_CHECK(it->state == PENDING && !it->may_cancel, "callback runs once unless cancelled");
    VF_CHECK(it->due, "callback added by another one waits");
    VF_CHECK(npending && pending[0] == it - item, "callbacks run in order of addition");
    VF_CHECK(running < 0, "destroy notification follows the callback");
    remove_pending(0);
    it->state = it->free == FREE_NOTHING ? RAN : RUNNING;
    if (it->free != FREE_NOTHING) running = it - item;
    switch (it->run) {
    case RUN_ADD: add(RUN_PLAIN, FREE_PLAIN, 1); break;
    case RUN_CANCEL_TAG: cancel_tag(1); break;
    case RUN_CANCEL_ALL: cancel_all(); break;
    case RUN_RELEASE:
        if (!released) {
            released = 1;
            gutil_idle_queue_unref(q);
        }
        break;
    case RUN_ADD_CANCEL: cancel_all(); add(RUN_ADD, FREE_PLAIN, 1); add(RUN_PLAIN, FREE_PLAIN, 2); cancel_tag(1); break;
    }
    if (!released) check_queries();
}
static int add(int run, int free, int tag)
{
    const int k = nitems++;
    Item* it = item + k;

    VF_CHECK(nitems <= MAXITEMS, "harness: number of items");
    it->run = run;
    it->free = free;
    it->tag = tag;
    it->state = PENDING;
    it->due = it->may_cancel = it->destroyed = 0;
    if (run == RUN_NOTHING && free == FREE_NOTHING) it->state = RAN;
    else pending[npending++] = k;
    if (tag) gutil_idle_queue_add_tag_full(q, tag, run == RUN_NOTHING ? NULL : on_run, it, free == FREE_NOTHING ? NULL : on_free);
    else gutil_idle_queue_add_full(q, run == RUN_NOTHING ? NULL : on_run, it, free == FREE_NOTHING ? NULL : on_free);
    return k;
}
static void iterate(void)
{
    int i;

    VF_CHECK(g_main_context_pending(NULL) == (npending > 0), "event loop has work to do exactly if the queue isn't empty");
    for (i = 0; i < npending; i++) item[pending[i]].due = 1;
    iterating = 1;
    g_main_context_iteration(NULL, FALSE);
    iterating = 0;
    VF_CHECK(running < 0, "destroy notification follows the callback");
    for (i = 0; i < npending; i++) VF_CHECK(!item[pending[i]].due, "every callback runs in the next iteration");
    if (!released) {
        VF_CHECK(g_main_context_pending(NULL) == (npending > 0), "event loop has work to do exactly if the queue isn't empty");
        check_queries();
    }
}
static void start(void)
{
    nitems = npending = iterating = released = cancelling_all = 0;
    running = -1;
    q = gutil_idle_queue_new();
}
/* The last reference is gone: nothing is left */
static void finish(gint64 live)
{
    int i;

    VF_CHECK(!npending, "nothing is pending");
    for (i = 0; i < nitems; i++) {
        VF_CHECK(item[i].state == RAN || item[i].state == CANCELLED, "every item ran or is cancelled");
        VF_CHECK(item[i].destroyed == (item[i].free != FREE_NOTHING), "every item is notified exactly once");
    }
    VF_CHECK(!g_main_context_pending(NULL), "nothing is left in the event loop");
    VF_NOLEAK(live);
}
static void end(int how, gint64 live)
{
    const int n = nitems;
    switch (how) {
    case 0:
        allow_cancel_all();
        gutil_idle_queue_free(q);
        check_cancelled(n);
        break;
    case 1:
        allow_cancel_all();
        gutil_idle_queue_unref(q);
        check_cancelled(n);
        break;
    case 2:
        VF_CHECK(gutil_idle_queue_ref(q) == q, "reference is returned");
        gutil_idle_queue_unref(q);
        while (npending) iterate();
        gutil_idle_queue_unref(q);
        break;
    case 3: /* Release from one's callback */
        if (!npending) add(RUN_RELEASE, FREE_PLAIN, 0);
        else item[pending[0]].run = RUN_RELEASE;
        iterate();
        break;
    }
    finish(live);
}

/* Callbacks of N items do any of these things */
void h_run(void)
{
    VF_SPLIT(k1, 0, NRUN - 1) VF_SPLIT(k2, N > 2 ? 0 : -1, N > 2 ? NRUN - 1 : -1) VF_SPLIT(more, 0, 1) {
        const gint64 live = vf_live();
        start();
        add(KIND0, FREE_PLAIN, 0);
        add(k1, FREE_PLAIN, 1);
        if (k2 >= 0) add(k2, FREE_PLAIN, 2);
        check_queries();
        iterate();
        if (!released) {
            if (more) add(RUN_ADD, FREE_NOTHING, 1);
            while (npending) iterate();
            gutil_idle_queue_free(q);
        }
        finish(live);
        if (k1 == RUN_NOTHING && more) VF_REACH("last");
        VF_STOP();
    }
}

/* Destroy notifications do any of these things */
void h_free(void)
{
    VF_SPLIT(f1, 0, NFREE - 1) VF_SPLIT(f2, 0, NFREE - 1) VF_SPLIT(how, 0, 2) {
        const gint64 live = vf_live();
        start();
        add(RUN_PLAIN, KIND0, 1);
        add(RUN_PLAIN, f1, 1);
        add(RUN_PLAIN, f2, 2);
        switch (how) {
        case 0: break;
        case 1: cancel_all(); break;
        case 2: cancel_tag(1); break;
        }
        check_queries();
        VF_CHECK(g_main_context_pending(NULL) == (npending > 0), "event loop has work to do exactly if the queue isn't empty");
        while (npending) iterate();
        gutil_idle_queue_unref(q);
        finish(live);
        if (f1 == NFREE - 1 && how == 2) VF_REACH("last");
        VF_STOP();
    }
}

/* Tags: N items with tags 0, 1, 2 in every combination, any two things done
 * to them, another item added, any end. */
static void tag_op(int op)
{
    switch (op) {
    case 0: case 1: case 2: cancel_tag(op); break;
    case 3: cancel_all(); break;
    case 4: iterate(); break;
    case 5: add(RUN_PLAIN, FREE_PLAIN, 1); break;
    }
    check_queries();
    VF_CHECK(g_main_context_pending(NULL) == (npending > 0), "event loop has work to do exactly if the queue isn't empty");
}
void h_tags(void)
{
    VF_SPLIT(tags, 0, N == 2 ? 8 : 26) VF_SPLIT(op2, 0, 5) {
        const gint64 live = vf_live();
        start();
        add(RUN_PLAIN, FREE_PLAIN, tags % 3);
        add(RUN_PLAIN, FREE_NOTHING, tags / 3 % 3);
        if (N > 2) add(RUN_PLAIN, FREE_PLAIN, tags / 9);
        check_queries();
        tag_op(KIND0);
        tag_op(op2);
        add(RUN_PLAIN, FREE_PLAIN, 1);
        check_queries();
        end((tags + op2) % 4, live);
        if (tags == 8 && op2 == 5) VF_REACH("last");
        VF_STOP();
    }
}

/* All bits of tags matter */
void h_any_tags(void)
{
    static const GUtilIdleQueueTag T[4] = { 1, 1 | ((GUtilIdleQueueTag)1 << (8 * sizeof(GUtilIdleQueueTag) - 1)), ~(GUtilIdleQueueTag)0, 0 };
    VF_SPLIT(i1, 0, 3) VF_SPLIT(i2, 0, 3) VF_SPLIT(it, 0, 3) {
        const gint64 live = vf_live();
        const GUtilIdleQueueTag t1 = T[i1], t2 = T[i2], t = T[it];
        int k;

        start();
        nitems = 2;
        for (k = 0; k < 2; k++) {
            item[k].run = RUN_PLAIN;
            item[k].free = FREE_PLAIN;
            item[k].state = PENDING;
            item[k].may_cancel = 1;
            item[k].destroyed = 0;
        }
        gutil_idle_queue_add_tag_full(q, t1, on_run, item, on_free);
        gutil_idle_queue_add_tag_full(q, t2, on_run, item + 1, on_free);
        VF_CHECK(gutil_idle_queue_contains_tag(q, t) == (t == t1 || t == t2), "tag query reflects pending items");
        VF_CHECK(gutil_idle_queue_cancel_tag(q, t) == (t == t1 || t == t2), "item with this tag is cancelled");
        VF_CHECK(item[0].destroyed == (t == t1), "exactly the first item with the tag is cancelled");
        VF_CHECK(item[1].destroyed == (t == t2 && t != t1), "exactly the first item with the tag is cancelled");
        VF_CHECK(gutil_idle_queue_contains_tag(q, t) == (t == t1 && t == t2), "tag query reflects pending items");
        gutil_idle_queue_free(q);
        finish(live);
        if (i1 == 3 && i2 == 3 && it == 3) VF_REACH("last");
        VF_STOP();
    }
}

/* Items without tags and notifications */
static int plain_runs;
static gpointer plain_data;
static void plain_run(gpointer data) { plain_runs++; VF_CHECK(data == plain_data, "data of the callback"); }
static void plain_free(gpointer data) { plain_runs += 10; VF_CHECK(data == plain_data, "data of the callback"); }
void h_plain(void)
{
    const gint64 live = vf_live();
    GUtilIdleQueue* a = gutil_idle_queue_new();
    GUtilIdleQueue* b = gutil_idle_queue_new();

    plain_runs = 0;
    plain_data = vf_ptr();
    gutil_idle_queue_add(a, plain_run, plain_data);
    gutil_idle_queue_add_tag(b, 1, plain_run, plain_data);
    gutil_idle_queue_add_full(b, plain_run, plain_data, plain_free);
    VF_CHECK(gutil_idle_queue_contains_tag(b, 1) && !gutil_idle_queue_contains_tag(a, 1), "queues are independent");
    VF_CHECK(gutil_idle_queue_contains_tag(b, 0) && gutil_idle_queue_contains_tag(a, 0), "default tag is zero");
    g_main_context_iteration(NULL, FALSE);
    VF_CHECK(plain_runs == 13, "all queues run in the next iteration");
    VF_CHECK(!g_main_context_pending(NULL), "nothing is left in the event loop");
    gutil_idle_queue_free(a);
    gutil_idle_queue_unref(b);
    VF_NOLEAK(live);
    VF_END("end");
}

/* No queue */
void h_none(void)
{
    const gint64 live = vf_live();

    plain_runs = 0;
    plain_data = vf_ptr();
    gutil_idle_queue_add(NULL, plain_run, plain_data);
    gutil_idle_queue_add_tag(NULL, vf_u64(), plain_run, plain_data);
    VF_CHECK(!plain_runs, "nothing runs");
    gutil_idle_queue_add_full(NULL, plain_run, plain_data, plain_free);
    VF_CHECK(plain_runs == 10, "data that can't be queued is destroyed");
    gutil_idle_queue_add_tag_full(NULL, vf_u64(), plain_run, plain_data, plain_free);
    VF_CHECK(plain_runs == 20, "data that can't be queued is destroyed");
    gutil_idle_queue_add_tag_full(NULL, vf_u64(), plain_run, plain_data, NULL);
    VF_CHECK(!gutil_idle_queue_ref(NULL), "nothing");
    gutil_idle_queue_unref(NULL);
    gutil_idle_queue_free(NULL);
    gutil_idle_queue_cancel_all(NULL);
    VF_CHECK(!gutil_idle_queue_cancel_tag(NULL, vf_u64()), "nothing");
    VF_CHECK(!gutil_idle_queue_contains_tag(NULL, vf_u64()), "nothing");
    VF_CHECK(!g_main_context_pending(NULL), "nothing is scheduled");
    VF_CHECK(plain_runs == 20, "nothing runs");
    VF_NOLEAK(live);
    VF_END("end");
}
