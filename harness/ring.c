/* Ring buffer: C17, C18 */
#include "vf.h"
#include "gutil_ring.h"

#ifndef ALLOC
#define ALLOC 3
#endif
#define CAP (ALLOC + 8)

typedef struct { gpointer v[CAP]; int n, max; } Ref;

static gpointer freed[CAP];
static int nfreed;
static void on_free(gpointer p)
{
    if (nfreed < CAP) freed[nfreed] = p;
    nfreed++;
}
static gpointer expected[CAP];
static int nexpected;
static gboolean with_free;

static void expect_free(gpointer p)
{
    if (with_free) expected[nexpected++] = p;
}
static void frees_match(void)
{
    int i;
    VF_CHECK(nfreed == nexpected, "exactly the discarded elements are freed");
    for (i = 0; i < nexpected; i++) VF_CHECK(freed[i] == expected[i], "discarded elements are freed in order");
    nfreed = nexpected = 0;
}

static gboolean full(const Ref* m) { return m->max >= 0 && m->n >= m->max; }
static void m_push(Ref* m, gpointer p) { m->v[m->n++] = p; }
static void m_push_front(Ref* m, gpointer p)
{
    int i;
    for (i = m->n; i > 0; i--) m->v[i] = m->v[i - 1];
    m->v[0] = p;
    m->n++;
}
static gpointer m_pop(Ref* m)
{
    gpointer p = m->v[0];
    int i;
    for (i = 1; i < m->n; i++) m->v[i - 1] = m->v[i];
    m->n--;
    return p;
}

static void put(GUtilRing* r, Ref* m)
{
    const gpointer p = vf_ptr();
    const gboolean ok = !full(m);
    VF_CHECK(!gutil_ring_put(r, p) == !ok, "insertion is refused exactly when the ring is full");
    if (ok) m_push(m, p);
}
static void put_front(GUtilRing* r, Ref* m)
{
    const gpointer p = vf_ptr();
    const gboolean ok = !full(m);
    VF_CHECK(!gutil_ring_put_front(r, p) == !ok, "insertion is refused exactly when the ring is full");
    if (ok) m_push_front(m, p);
}
static void get(GUtilRing* r, Ref* m)
{
    const gpointer p = gutil_ring_get(r);
    if (m->n) VF_CHECK(p == m_pop(m), "the oldest element is taken");
    else VF_CHECK(!p, "nothing to take");
}
static void get_last(GUtilRing* r, Ref* m)
{
    const gpointer p = gutil_ring_get_last(r);
    if (m->n) { m->n--; VF_CHECK(p == m->v[m->n], "the newest element is taken"); }
    else VF_CHECK(!p, "nothing to take");
}
static void elements(GUtilRing* r, const Ref* m)
{
    int i;
    VF_CHECK(gutil_ring_size(r) == m->n, "number of elements");
    for (i = 0; i < m->n; i++) VF_CHECK(gutil_ring_data_at(r, i) == m->v[i], "elements in order");
}
static void observe(GUtilRing* r, const Ref* m)
{
    const int any = vf_int();
    gpointer p;

    elements(r, m);
    VF_CHECK(gutil_ring_max_size(r) == m->max, "maximum size");
    p = gutil_ring_data_at(r, any);
    if (any < 0 || any >= m->n) VF_CHECK(!p, "nothing at invalid positions");
    if (any >= 0) VF_CHECK(!gutil_ring_can_put(r, any) == !(m->max < 0 || any <= m->max - m->n), "capacity query");
}

/* The ring of a given layout: position of the first element, number of
 * elements, limit */
static GUtilRing* make(Ref* m, int start, int count, int max)
{
    GUtilRing* r = gutil_ring_new_full(ALLOC, -1, with_free ? on_free : NULL);
    int i;

    nfreed = nexpected = 0;
    m->n = 0;
    m->max = -1;
    if (count > 0) {
        for (i = 0; i <= start; i++) put(r, m);
        for (i = 0; i < start; i++) get(r, m);
        for (i = 1; i < count; i++) put(r, m);
    }
    gutil_ring_set_max_size(r, max);
    m->max = max < 0 ? -1 : max;
    for (i = 0; max >= 0 && m->n > max; i++) expect_free(m_pop(m));
    return r;
}
/* The last reference takes the elements with it */
static void finish(GUtilRing* r, Ref* m)
{
    int i;
    VF_CHECK(gutil_ring_ref(r) == r, "reference");
    gutil_ring_unref(r);
    frees_match();
    elements(r, m);
    for (i = 0; i < m->n; i++) expect_free(m->v[i]);
    gutil_ring_unref(r);
    frees_match();
}

#define LAYOUTS VF_SPLIT(start, STARTLO, STARTHI) VF_SPLIT(count, 0, (ALLOC)) \
    VF_SPLIT(max, MAXLO, MAXHI) VF_SPLIT(after, AFTERLO, AFTERHI)
#define BEGIN \
    const gint64 live = vf_live(); \
    Ref m; GUtilRing* r; \
    if (!count && start) VF_STOP(); \
    with_free = (FREE); \
    r = make(&m, start, count, max);
#define DONE(msg) \
    finish(r, &m); \
    VF_NOLEAK(live); \
    if (count == (ALLOC) && after == (AFTERHI)) VF_REACH(msg); \
    VF_STOP();

/* Everything else must still work after the operation */
static void flatten(GUtilRing* r, const Ref* m)
{
    int i, n = -1;
    gpointer* p = gutil_ring_flatten(r, &n);
    VF_CHECK(n == m->n, "flattened size");
    VF_CHECK(!p == !n, "flattened data, if any");
    for (i = 0; i < m->n; i++) VF_CHECK(p[i] == m->v[i], "flattened elements in order");
}
static void exercise(GUtilRing* r, Ref* m, int how)
{
    elements(r, m);
    if (how == 2) return;
    if (how == 1) {
        /* Around the end of the buffer without growing it */
        get(r, m);
        put(r, m);
        elements(r, m);
        get_last(r, m);
        put_front(r, m);
        elements(r, m);
        return;
    }
    put(r, m);
    flatten(r, m);
    put_front(r, m);
    elements(r, m);
    get(r, m);
    get_last(r, m);
}

void h_put(void)
{
    LAYOUTS {
        BEGIN
        observe(r, &m);
        put(r, &m);
        elements(r, &m);
        put(r, &m);
        exercise(r, &m, after);
        DONE("put")
    }
}
void h_put_front(void)
{
    LAYOUTS {
        BEGIN
        put_front(r, &m);
        elements(r, &m);
        put_front(r, &m);
        exercise(r, &m, after);
        DONE("put front")
    }
}
void h_get(void)
{
    LAYOUTS {
        BEGIN
        get(r, &m);
        elements(r, &m);
        get(r, &m);
        exercise(r, &m, after);
        DONE("get")
    }
}
void h_get_last(void)
{
    LAYOUTS {
        BEGIN
        get_last(r, &m);
        elements(r, &m);
        get_last(r, &m);
        exercise(r, &m, after);
        DONE("get last")
    }
}
void h_drop(void)
{
    LAYOUTS VF_SPLIT(n, -1, (ALLOC) + 2) {
        BEGIN
        {
            const int k = n <= 0 ? 0 : n > m.n ? m.n : n;
            int i;
            VF_CHECK(gutil_ring_drop(r, n == (ALLOC) + 2 ? G_MAXINT : n == -1 ? G_MININT : n) == k, "number of dropped elements");
            for (i = 0; i < k; i++) expect_free(m_pop(&m));
            frees_match();
            exercise(r, &m, after);
        }
        finish(r, &m);
        VF_NOLEAK(live);
        if (count == (ALLOC) && after == (AFTERHI)) VF_REACH("drop");
        VF_STOP();
    }
}
void h_drop_last(void)
{
    LAYOUTS VF_SPLIT(n, -1, (ALLOC) + 2) {
        BEGIN
        {
            const int k = n <= 0 ? 0 : n > m.n ? m.n : n;
            int i;
            VF_CHECK(gutil_ring_drop_last(r, n == (ALLOC) + 2 ? G_MAXINT : n == -1 ? G_MININT : n) == k, "number of dropped elements");
            if (k == m.n) {
                /* The whole thing is cleared: oldest first */
                for (i = 0; i < k; i++) expect_free(m.v[i]);
                m.n = 0;
            } else {
                for (i = 0; i < k; i++) expect_free(m.v[--m.n]);
            }
            frees_match();
            exercise(r, &m, after);
        }
        finish(r, &m);
        VF_NOLEAK(live);
        if (count == (ALLOC) && after == (AFTERHI)) VF_REACH("drop last");
        VF_STOP();
    }
}
void h_clear(void)
{
    LAYOUTS {
        BEGIN
        gutil_ring_clear(r);
        while (m.n) expect_free(m_pop(&m));
        frees_match();
        exercise(r, &m, after);
        DONE("clear")
    }
}
void h_compact(void)
{
    LAYOUTS {
        BEGIN
        gutil_ring_compact(r);
        frees_match();
        exercise(r, &m, after);
        DONE("compact")
    }
}
void h_flatten(void)
{
    LAYOUTS {
        BEGIN
        gutil_ring_flatten(r, NULL);
        flatten(r, &m);
        frees_match();
        exercise(r, &m, after);
        DONE("flatten")
    }
}
void h_reserve(void)
{
    LAYOUTS VF_SPLIT(n, -1, (ALLOC) + 2) {
        BEGIN
        {
            gboolean ok = gutil_ring_reserve(r, n);
            if (m.max < 0) VF_CHECK(ok, "unlimited ring can reserve any size");
            frees_match();
            exercise(r, &m, after);
        }
        finish(r, &m);
        VF_NOLEAK(live);
        if (count == (ALLOC) && after == (AFTERHI)) VF_REACH("reserve");
        VF_STOP();
    }
}
void h_set_max(void)
{
    LAYOUTS VF_SPLIT(n, -2, ALLOC) {
        BEGIN
        gutil_ring_set_max_size(r, n == -2 ? G_MININT : n);
        m.max = n < 0 ? -1 : n;
        while (m.max >= 0 && m.n > m.max) expect_free(m_pop(&m));
        frees_match();
        exercise(r, &m, after);
        finish(r, &m);
        VF_NOLEAK(live);
        if (count == (ALLOC) && after == (AFTERHI)) VF_REACH("set max");
        VF_STOP();
    }
}

/* From scratch: created with a limit, filled from either end */
void h_limited(void)
{
    VF_SPLIT(res, RES, RES) VF_SPLIT(max, -1, 3) VF_SPLIT(ends, 0, 7) VF_SPLIT(after, 0, 0) {
        const gint64 live = vf_live();
        Ref m;
        GUtilRing* r;
        int i;

        with_free = FALSE;
        nfreed = nexpected = 0;
        m.n = 0;
        m.max = max;
        r = gutil_ring_sized_new(res, max);
        for (i = 0; i < 3; i++) {
            if ((ends >> i) & 1) put_front(r, &m); else put(r, &m);
            if (i == 1) get(r, &m);
        }
        exercise(r, &m, after);
        finish(r, &m);
        VF_NOLEAK(live);
        if (ends == 5) VF_REACH("limited");
        VF_STOP();
    }
}

/* The free function may be set and replaced later */
void h_set_free(void)
{
    VF_SPLIT(start, 0, (ALLOC) - 1) VF_SPLIT(count, 0, ALLOC) VF_SPLIT(op, 0, 4) {
        const gint64 live = vf_live();
        Ref m;
        GUtilRing* r;
        int i, k;

        with_free = FALSE;
        r = make(&m, start, count, -1);
        gutil_ring_set_free_func(r, on_free);
        with_free = TRUE;
        switch (op) {
        case 0: gutil_ring_clear(r); k = m.n; break;
        case 1: k = m.n > 1 ? 1 : m.n; gutil_ring_drop(r, 1); break;
        case 2: gutil_ring_set_max_size(r, m.n / 2); k = m.n - m.n / 2; m.max = m.n / 2; break;
        case 3: if (m.n) m_pop(&m), gutil_ring_get(r); k = 0; break;
        default: gutil_ring_set_free_func(r, NULL); with_free = FALSE; k = m.n; gutil_ring_clear(r); break;
        }
        for (i = 0; i < k; i++) expect_free(m_pop(&m));
        frees_match();
        finish(r, &m);
        VF_NOLEAK(live);
        if (start == 0 && count == ALLOC) VF_REACH("set free");
        VF_STOP();
    }
}
