/* String vectors: C13..C15 */
#include "vf.h"
#include "gutil_strv.h"
#include "gutil_misc.h"

#ifndef MAXN
#define MAXN 3
#endif
#define CH 2           /* characters per element */
#ifndef PATN
#define PATN 4
#endif
#define CAP (MAXN + PATN + 4)

static int cmp(const char* a, const char* b)
{
    int i;
    for (i = 0; a[i] && a[i] == b[i]; i++);
    return (int)(guchar)a[i] - (int)(guchar)b[i];
}

/* A string of up to CH symbolic characters */
static char* str(void)
{
    char* s = g_malloc(CH + 1);
    int i;
    for (i = 0; i < CH; i++) s[i] = (char) vf_u8();
    s[CH] = 0;
    return s;
}

typedef struct { char* s[CAP]; int n; } List;

/* n < 0: no vector at all */
static char** vec(int n, List* l)
{
    l->n = 0;
    if (n < 0) {
        return NULL;
    } else {
        char** sv = g_new(char*, n + 1);
        for (; l->n < n; l->n++) sv[l->n] = l->s[l->n] = str();
        sv[n] = NULL;
        return sv;
    }
}
static void same(char** sv, const List* l)
{
    int i;
    for (i = 0; i < l->n; i++) VF_CHECK(sv[i] == l->s[i], "elements are the expected strings in the expected order");
    if (l->n) VF_CHECK(!sv[l->n], "vector is terminated");
    else VF_CHECK(!sv || !sv[0], "vector is empty");
}
static void del(List* l, int pos)
{
    int i;
    for (i = pos; i + 1 < l->n; i++) l->s[i] = l->s[i + 1];
    l->n--;
}

/* C13 */
void h_read(void)
{
    VF_SPLIT(n, -1, MAXN) VF_SPLIT(m, -1, MAXN) {
        const gint64 live = vf_live();
        List l, l2;
        char** sv = vec(n, &l);
        char** sv2 = vec(m, &l2);
        char* s = str();
        const guint idx = vf_u32();
        int i, first = -1, last = -1;
        gboolean eq = l.n == l2.n;

        for (i = 0; i < l.n; i++) if (!cmp(l.s[i], s)) {
            if (first < 0) first = i;
            last = i;
        }
        for (i = 0; i < l.n && i < l2.n; i++) if (cmp(l.s[i], l2.s[i])) eq = FALSE;
        VF_CHECK(gutil_strv_length(sv) == (guint)l.n, "length of the vector");
        VF_CHECK(gutil_ptrv_length(sv) == (gsize)l.n, "length of the pointer vector");
        VF_CHECK(!gutil_ptrv_is_empty(sv) == (l.n > 0), "emptiness");
        VF_CHECK(gutil_strv_at(sv, idx) == (idx < (guint)l.n ? l.s[idx] : NULL), "element at any index");
        VF_CHECK(gutil_strv_last(sv) == (l.n ? l.s[l.n - 1] : NULL), "last element");
        VF_CHECK(gutil_strv_find(sv, s) == first, "first index");
        VF_CHECK(gutil_strv_find_last(sv, s) == last, "last index");
        VF_CHECK(!gutil_strv_contains(sv, s) == (first < 0), "membership");
        VF_CHECK(gutil_strv_find(sv, NULL) == -1 && gutil_strv_find_last(sv, NULL) == -1 && !gutil_strv_contains(sv, NULL), "absent string is not found");
        VF_CHECK(!gutil_strv_equal(sv, sv2) == !eq, "equality");
        VF_CHECK(gutil_strv_equal(sv, sv), "a vector equals itself");
        same(sv, &l);
        same(sv2, &l2);
        gutil_ptrv_free((void**)sv);
        gutil_ptrv_free((void**)sv2);
        g_free(s);
        VF_NOLEAK(live);
        VF_END("read");
    }
}

/* C14: one operation after another on a vector of any contents */
static char* fresh(int len)
{
    char* s = g_malloc(len + 1);
    int i;
    for (i = 0; i < len; i++) {
        s[i] = (char) vf_u8();
        VF_ASSUME(s[i]);
    }
    s[len] = 0;
    VF_STRING(s, len);
    return s;
}

static void added(char** sv, List* l, const char* s)
{
    VF_CHECK(sv[l->n] && sv[l->n] != s && !cmp(sv[l->n], s), "a copy of the string is appended");
    l->s[l->n] = sv[l->n];
    l->n++;
}

void h_add(void)
{
    VF_SPLIT(n, -1, MAXN) VF_SPLIT(len, -1, CH) {
        const gint64 live = vf_live();
        List l;
        char** sv = vec(n, &l);
        char** was = sv;

        if (len < 0) {
            sv = gutil_strv_add(sv, NULL);
            VF_CHECK(sv == was, "nothing is added");
        } else {
            char* s = fresh(len);
            sv = gutil_strv_add(sv, s);
            VF_CHECK(sv != NULL, "there is a vector");
            added(sv, &l, s);
            g_free(s);
        }
        same(sv, &l);
        g_strfreev(sv);
        VF_NOLEAK(live);
        VF_END("add");
    }
}

void h_addv(void)
{
    VF_SPLIT(n, -1, MAXN) VF_SPLIT(count, 0, 3) {
        const gint64 live = vf_live();
        List l;
        char** sv = vec(n, &l);
        char** was = sv;
        char* s[3];
        int i;

        for (i = 0; i < 3; i++) s[i] = fresh(i ? 2 - i : CH);
        sv = count == 0 ? gutil_strv_addv(sv, NULL) :
            count == 1 ? gutil_strv_addv(sv, s[0], NULL) :
            count == 2 ? gutil_strv_addv(sv, s[0], s[1], NULL) :
            gutil_strv_addv(sv, s[0], s[1], s[2], NULL);
        if (!count) VF_CHECK(sv == was, "nothing is added");
        for (i = 0; i < count; i++) added(sv, &l, s[i]);
        same(sv, &l);
        for (i = 0; i < 3; i++) g_free(s[i]);
        g_strfreev(sv);
        VF_NOLEAK(live);
        VF_END("addv");
    }
}

void h_remove_at(void)
{
    VF_SPLIT(n, -1, MAXN) VF_SPLIT(where, -1, MAXN + 1) {
        const gint64 live = vf_live();
        List l;
        char** sv = vec(n, &l);
        const gboolean free_string = vf_bool();
        int pos = where;
        char* was = (pos >= 0 && pos < l.n) ? l.s[pos] : NULL;

        if (where < 0) {
            pos = vf_int();
            VF_ASSUME(pos < 0);
        } else if (where == MAXN + 1) {
            pos = vf_int();
            VF_ASSUME(pos > MAXN);
        }
        sv = gutil_strv_remove_at(sv, pos, free_string);
        if (was) {
            del(&l, pos);
            if (!free_string) {
                VF_CHECK(was[CH] == 0, "the removed string is kept on request");
                g_free(was);
            }
        }
        same(sv, &l);
        VF_CHECK(n < 0 ? !sv : !!sv, "a vector remains a vector");
        g_strfreev(sv);
        VF_NOLEAK(live);
        VF_END("remove at");
    }
}

void h_remove(void)
{
    VF_SPLIT(n, -1, MAXN) VF_SPLIT(all, 0, 1) {
        const gint64 live = vf_live();
        List l;
        char** sv = vec(n, &l);
        char* s = str();
        int i;
        gboolean done = FALSE;

        sv = gutil_strv_remove(sv, s, all);
        for (i = 0; i < l.n; ) {
            if (!done && !cmp(l.s[i], s)) {
                del(&l, i);
                if (!all) done = TRUE;
            } else {
                i++;
            }
        }
        same(sv, &l);
        VF_CHECK(n < 0 ? !sv : !!sv, "a vector remains a vector");
        VF_CHECK(gutil_strv_remove(sv, NULL, all) == sv, "absent string changes nothing");
        same(sv, &l);
        g_strfreev(sv);
        g_free(s);
        VF_NOLEAK(live);
        VF_END("remove");
    }
}

/* Longer vectors: every pattern of equal and different elements */
static char** pattern(int n, int code, int classes, int variant, List* l)
{
    /* The first one and its near misses */
    static const char* const words[] = { "ab", "a", "abc", "AB", "", "b" };
    char** sv = g_new(char*, n + 1);
    for (l->n = 0; l->n < n; l->n++) {
        const int k = code % classes;
        sv[l->n] = l->s[l->n] = g_strdup(words[k ? 1 + (variant + 2 * k) % 5 : 0]);
        code /= classes;
    }
    sv[n] = NULL;
    return sv;
}
#ifndef PATTERNS
#define PATTERNS 16
#endif
void h_remove_pattern(void)
{
    VF_SPLIT(code, 0, (1 << PATN) - 1) VF_SPLIT(all, 0, 1) {
        const gint64 live = vf_live();
        List l;
        char** sv = pattern(PATN, code, 2, code, &l);
        int i, k;

        sv = gutil_strv_remove(sv, "ab", all);
        for (i = k = 0; k < PATN; k++) {
            const gboolean match = !((code >> k) & 1);
            const gboolean first = ((~code) & ((1 << k) - 1)) == 0;
            if (match && (all || first)) del(&l, i); else i++;
        }
        same(sv, &l);
        g_strfreev(sv);
        VF_NOLEAK(live);
        VF_END("remove pattern");
    }
}
void h_dups_pattern(void)
{
    VF_SPLIT(code, 0, PATTERNS - 1) {
        const gint64 live = vf_live();
        List l, r;
        char** sv = pattern(PATN, code, 3, code, &l);
        int i, k;

        r.n = 0;
        for (i = 0; i < l.n; i++) {
            gboolean dup = FALSE;
            for (k = 0; k < i; k++) if (!cmp(l.s[k], l.s[i])) dup = TRUE;
            if (!dup) r.s[r.n++] = l.s[i];
        }
        sv = gutil_strv_remove_dups(sv);
        same(sv, &r);
        g_strfreev(sv);
        VF_NOLEAK(live);
        VF_END("dups pattern");
    }
}

void h_remove_dups(void)
{
    VF_SPLIT(n, -1, MAXN) {
        const gint64 live = vf_live();
        List l, r;
        char** sv = vec(n, &l);
        int i, k;

        r.n = 0;
        for (i = 0; i < l.n; i++) {
            gboolean dup = FALSE;
            for (k = 0; k < r.n; k++) if (!cmp(r.s[k], l.s[i])) dup = TRUE;
            if (!dup) r.s[r.n++] = l.s[i];
        }
        sv = gutil_strv_remove_dups(sv);
        same(sv, &r);
        VF_CHECK(n < 0 ? !sv : !!sv, "a vector remains a vector");
        g_strfreev(sv);
        VF_NOLEAK(live);
        VF_END("remove dups");
    }
}

/* C15 */
void h_sort(void)
{
    VF_SPLIT(n, -1, MAXN) {
        const gint64 live = vf_live();
        List l;
        char** sv = vec(n, &l);
        char** was = sv;
        const gboolean asc = vf_bool();
        int i, k;

        sv = gutil_strv_sort(sv, asc);
        VF_CHECK(sv == was, "sorted in place");
        for (i = 0; i < l.n; i++) {
            int count = 0;
            for (k = 0; k < l.n; k++) if (sv[k] == l.s[i]) count++;
            VF_CHECK(count == 1, "a permutation of the same strings");
        }
        for (i = 1; i < l.n; i++) {
            const int c = cmp(sv[i - 1], sv[i]);
            VF_CHECK(asc ? c <= 0 : c >= 0, "in the requested order");
        }
        if (n >= 0) VF_CHECK(!sv[l.n], "still terminated");
        g_strfreev(sv);
        VF_NOLEAK(live);
        VF_END("sort");
    }
}

void h_bsearch(void)
{
    VF_SPLIT(n, -1, MAXN) VF_SPLIT(asc, 0, 1) {
        const gint64 live = vf_live();
        List l;
        char** sv = vec(n, &l);
        char* s = str();
        int i, found;
        gboolean there = FALSE;

        /* Any sorted vector */
        for (i = 1; i < l.n; i++) VF_ASSUME(asc ? cmp(sv[i - 1], sv[i]) <= 0 : cmp(sv[i - 1], sv[i]) >= 0);
        for (i = 0; i < l.n; i++) if (!cmp(sv[i], s)) there = TRUE;
        found = gutil_strv_bsearch(sv, s, asc);
        VF_CHECK((found >= 0) == there, "found exactly when it is there");
        VF_CHECK(found >= -1 && found < l.n, "index or -1");
        for (i = 0; i < l.n; i++) if (found == i) VF_CHECK(!cmp(sv[i], s), "the string is at the index");
        VF_CHECK(gutil_strv_bsearch(sv, NULL, asc) == -1, "absent string is not found");
        same(sv, &l);
        g_strfreev(sv);
        g_free(s);
        VF_NOLEAK(live);
        VF_END("bsearch");
    }
}

static gboolean sp(char c)
{
    return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f';
}

#ifndef SLEN
#define SLEN 3
#endif
void h_strip(void)
{
    VF_SPLIT(n, -1, 2) {
        const gint64 live = vf_live();
        char** sv = n < 0 ? NULL : g_new(char*, n + 1);
        char** was = sv;
        char orig[2][SLEN + 1];
        char* ptr[2];
        int i, k;

        for (i = 0; i < n; i++) {
            sv[i] = ptr[i] = g_malloc(SLEN + 1);
            for (k = 0; k < SLEN; k++) sv[i][k] = orig[i][k] = (char) vf_u8();
            sv[i][SLEN] = orig[i][SLEN] = 0;
        }
        if (n >= 0) sv[n] = NULL;
        VF_CHECK(gutil_strv_strip(sv) == was, "stripped in place");
        for (i = 0; i < n; i++) {
            int b = 0, e;
            VF_CHECK(sv[i] == ptr[i], "same string");
            for (e = 0; orig[i][e]; e++);
            while (sp(orig[i][b])) b++;
            while (e > b && sp(orig[i][e - 1])) e--;
            for (k = 0; k <= SLEN; k++) {
                if (k < e - b) VF_CHECK(sv[i][k] == orig[i][b + k], "inner part is kept");
                if (k == e - b) VF_CHECK(!sv[i][k], "leading and trailing whitespace is removed");
            }
        }
        if (n >= 0) VF_CHECK(!sv[n], "still terminated");
        g_strfreev(sv);
        VF_NOLEAK(live);
        VF_END("strip");
    }
}
