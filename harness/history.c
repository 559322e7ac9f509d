/* Value history: C19, C20 */
#include "vf.h"
#include "gutil_history.h"

#ifndef CAPACITY
#define CAPACITY 3
#endif
#ifndef STEPS
#define STEPS 4
#endif
#define LIMIT (G_GINT64_CONSTANT(1) << 61)

/* The clock */
static gint64 now;
static gint64 clock_fn(void) { return now; }
gint64 g_get_monotonic_time(void) { return now; }

/* The samples a history is supposed to hold, oldest first */
typedef struct { gint64 t[STEPS + 2]; int v[STEPS + 2]; int n; int cap; gint64 interval; } Ref;

static void m_shift(Ref* m)
{
    int i;
    for (i = 0; i < STEPS + 1; i++) {
        m->t[i] = m->t[i + 1];
        m->v[i] = m->v[i + 1];
    }
    m->n--;
}
static void m_expire(Ref* m)
{
    int i;
    for (i = 0; i < CAPACITY; i++) if (m->n > 0 && now - m->t[0] > m->interval) m_shift(m);
}
static void m_add(Ref* m, int v)
{
    m_expire(m);
    if (m->n > 0 && now <= m->t[m->n - 1]) {
        m->v[m->n - 1] = v;
    } else {
        if (m->n == m->cap) m_shift(m);
        m->t[m->n] = now;
        m->v[m->n] = v;
        m->n++;
    }
}
static gint64 clock_reading(void)
{
    const gint64 t = vf_i64();
    VF_ASSUME(t > -LIMIT && t < LIMIT);
    return t;
}
static gint64 any_interval(void)
{
    const gint64 t = vf_i64();
    VF_ASSUME(t > 0 && t < LIMIT);
    return t;
}

/* Which samples are kept. All clock readings are symbolic. */
static void observe(GUtilIntHistory* h, Ref* m)
{
    m_expire(m);
    VF_CHECK(gutil_int_history_size(h) == (guint) m->n, "number of samples");
    VF_CHECK(gutil_int_history_interval(h) == (m->n ? now - m->t[0] : 0), "covered interval");
}
/* Symbolic clock readings over the full range */
void h_symbolic(void)
{
    const gint64 live = vf_live();
    Ref m;
    GUtilIntHistory* h;
    int i, v;

    m.n = 0;
    m.cap = CAPACITY;
    m.interval = any_interval();
    now = clock_reading();
    h = gutil_int_history_new(CAPACITY, m.interval);
    VF_CHECK(h != NULL, "valid history");
    for (i = 0; i < STEPS; i++) {
        v = vf_int();
        gutil_int_history_add(h, v);
        m_add(&m, v);
        now = clock_reading();
    }
    observe(h, &m);
    gutil_int_history_unref(h);
    VF_NOLEAK(live);
    if (m.n == MIN(CAPACITY, STEPS)) VF_REACH("symbolic");
    VF_STOP();
}

/* Every clock step between DLO and DHI, every interval between ILO and IHI,
 * every one of the operations after each step */
void h_contents(void)
{
    VF_SPLIT(iv, ILO, IHI) VF_SPLIT(d1, D1LO, D1HI) VF_SPLIT(d2, DLO, DHI) VF_SPLIT(d3, DLO, DHI) VF_SPLIT(op, OP, OP) {
        const gint64 live = vf_live();
        Ref m;
        GUtilIntHistory* h;
        int i, v;

        m.n = 0;
        m.cap = CAPACITY;
        m.interval = iv;
        now = 0;
        h = gutil_int_history_new_full(CAPACITY, m.interval, clock_fn);
        VF_CHECK(h != NULL, "valid history");
        VF_CHECK(gutil_int_history_size(h) == 0 && gutil_int_history_interval(h) == 0, "empty history");
        for (i = 0; i < 4; i++) {
            if (i) now += i == 1 ? d1 : i == 2 ? d2 : d3;
            if (i == 2 && op) {
                if (op == 1) observe(h, &m);
                else if (op == 2) gutil_int_history_clear(h), m.n = 0;
                else if (op == 3) { m_expire(&m); VF_CHECK(gutil_int_history_size(h) == (guint) m.n, "number of samples"); }
                else { m_expire(&m); gutil_int_history_median(h, 0); }
            } else {
                v = vf_int();
                gutil_int_history_add(h, v);
                m_add(&m, v);
            }
        }
        VF_CHECK(gutil_int_history_ref(h) == h, "reference");
        gutil_int_history_unref(h);
        observe(h, &m);
        now++;
        observe(h, &m);
        gutil_int_history_unref(h);
        VF_NOLEAK(live);
        if (d1 == D1HI && d2 == DLO && d3 == DHI) VF_REACH("contents");
        VF_STOP();
    }
}
/* Long runs of additions, all kept until they are pushed out or expire */
void h_wrap(void)
{
    VF_SPLIT(count, 1, STEPS) VF_SPLIT(expired, 0, MIN(CAPACITY, count)) {
        const gint64 live = vf_live();
        GUtilIntHistory* h = gutil_int_history_new_full(CAPACITY, 1000, clock_fn);
        gint64 oldest;
        int i, held = MIN(CAPACITY, count);

        now = -2;
        for (i = 0; i < count; i++) {
            now++;
            gutil_int_history_add(h, i);
            VF_CHECK(gutil_int_history_size(h) == (guint) MIN(CAPACITY, i + 1), "number of samples");
            VF_CHECK(gutil_int_history_interval(h) == MIN(CAPACITY, i + 1) - 1, "covered interval");
        }
        oldest = now - (held - 1);
        now = oldest + 1000 + expired;
        VF_CHECK(gutil_int_history_size(h) == (guint)(held - expired), "exactly the expired samples are gone");
        VF_CHECK(gutil_int_history_interval(h) == (held == expired ? 0 : 1000), "covered interval");
        gutil_int_history_unref(h);
        VF_NOLEAK(live);
        if (count == STEPS) VF_REACH("wrap");
        VF_STOP();
    }
}
void h_invalid(void)
{
    const int size = vf_int();
    const gint64 interval = vf_i64();
    VF_ASSUME(size <= 0 || interval <= 0);
    VF_CHECK(!gutil_int_history_new(size, interval), "invalid history is not created");
    VF_CHECK(!gutil_int_history_new_full(size, interval, clock_fn), "invalid history is not created");
    gutil_int_history_unref(NULL);
    VF_CHECK(!gutil_int_history_ref(NULL), "no history");
    VF_CHECK(gutil_int_history_size(NULL) == 0 && gutil_int_history_interval(NULL) == 0, "no history");
    gutil_int_history_clear(NULL);
    VF_CHECK(gutil_int_history_median(NULL, size) == size, "default value");
    VF_CHECK(gutil_int_history_add(NULL, size) == 0, "no history");
    VF_END("invalid");
}

/* The average. Clock readings are constants, values are symbolic. */
static void average(const Ref* m, int q)
{
    if (m->n == 1) {
        VF_CHECK(q == m->v[0], "single sample");
    } else {
        const gint64 d = 2 * (m->t[m->n - 1] - m->t[0]);
        gint64 a = 0;
        int i, lo = m->v[0], hi = m->v[0];

        for (i = 1; i < m->n; i++) {
            a += (m->t[i] - m->t[i - 1]) * ((gint64) m->v[i] + m->v[i - 1]);
            if (m->v[i] < lo) lo = m->v[i];
            if (m->v[i] > hi) hi = m->v[i];
        }
        a -= q * d; /* The remainder has the sign of the dividend */
        VF_CHECK(a > -d && a < d, "time-weighted average");
        VF_CHECK(q <= 0 || a >= 0, "rounding toward zero");
        VF_CHECK(q >= 0 || a <= 0, "rounding toward zero");
        if (q == 0) VF_CHECK(a > -d && a < d, "rounding toward zero");
    }
}
static const gint64 steps[] = { 0, STEPVALUES };
#define NSTEPS ((int) G_N_ELEMENTS(steps))
/* Number `where` of the regions of 2^BITS values each */
static int value(int where)
{
    const int x = (int) vf_range(0, (1 << BITS) - 1);
    return where == 0 ? x - (1 << (BITS - 1)) : where == 1 ? x + G_MININT : G_MAXINT - x;
}
static const int regions[][4] = { REGIONS };
void h_average(void)
{
    VF_SPLIT(s1, 1, NSTEPS - 1) VF_SPLIT(s2, 0, NSTEPS - 1) VF_SPLIT(s3, S3LO, S3HI) VF_SPLIT(r, 0, (int) G_N_ELEMENTS(regions) - 1) {
        const gint64 live = vf_live();
        Ref m;
        GUtilIntHistory* h;
        int i, v;

        m.n = 0;
        m.cap = CAPACITY;
        m.interval = INTERVAL;
        now = 1000;
        h = gutil_int_history_new_full(CAPACITY, m.interval, clock_fn);
        v = vf_int();
        VF_CHECK(gutil_int_history_median(h, v) == v, "default value");
        for (i = 0; i < 4; i++) {
            v = value(regions[r][i]);
            if (i) now += steps[i == 1 ? s1 : i == 2 ? s2 : s3];
            m_add(&m, v);
            v = gutil_int_history_add(h, v);
            if (i != 2) average(&m, v);
            else VF_CHECK(gutil_int_history_median(h, 0) == v, "same value");
        }
        now += steps[s1];
        m_expire(&m);
        v = vf_int();
        i = gutil_int_history_median(h, v);
        if (m.n) average(&m, i); else VF_CHECK(i == v, "default value");
        now += INTERVAL + 1;
        VF_CHECK(gutil_int_history_median(h, v) == v, "default value");
        gutil_int_history_unref(h);
        VF_NOLEAK(live);
        if (s1 == 1 && s2 == 1 && s3 == S3HI) VF_REACH("average");
        VF_STOP();
    }
}
/* Any two values */
void h_pair(void)
{
    VF_SPLIT(s, 1, NSTEPS - 1) {
        GUtilIntHistory* h = gutil_int_history_new_full(2, G_MAXINT64 / 2, clock_fn);
        const int v0 = vf_int(), v1 = vf_int();
        const gint64 sum = (gint64) v0 + v1;
        int q;

        /* The area fits 62 bits */
        VF_ASSUME(sum <= (G_GINT64_CONSTANT(1) << 62) / steps[s] && -sum <= (G_GINT64_CONSTANT(1) << 62) / steps[s]);

        now = 0;
        VF_CHECK(gutil_int_history_add(h, v0) == v0, "single sample");
        now += steps[s];
        q = gutil_int_history_add(h, v1);
        VF_CHECK(q == (int)(sum / 2), "time-weighted average");
        gutil_int_history_unref(h);
        if (s == 1) VF_REACH("pair");
        VF_STOP();
    }
}
