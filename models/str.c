/* C and GLib string functions, byte loops (bounded by the unwinding limit) */
#include "vf.h"
extern const char* vf_fmt_ptr[2];
extern gsize vf_fmt_len[2];
#include <stdlib.h>
#include <errno.h>

#undef memcpy
#undef memmove
#undef memset
#undef memcmp
#undef strlen
#undef strcmp
#undef strncmp
#undef strchr
#undef strrchr
#undef strstr
#undef strcpy
#undef strncpy
#undef strdup
#undef strndup
#undef g_strdup
#undef g_strndup
#undef g_strcmp0
#undef g_str_equal
#undef g_strstrip
#undef g_strlcpy
#undef g_str_has_prefix
#undef g_str_has_suffix

/* Pointer vectors are copied pointer by pointer */
#define WORDS(p,n) (!((n) & 7) && !(__CPROVER_OBJECT_SIZE(p) & 7) && \
    !(__CPROVER_POINTER_OFFSET(p) & 7))

void* memcpy(void* d, const void* s, size_t n)
{
    if (n) {
        __CPROVER_assert(__CPROVER_w_ok(d, n), "memcpy destination is writable");
        __CPROVER_assert(__CPROVER_r_ok(s, n), "memcpy source is readable");
        __CPROVER_assert(!__CPROVER_same_object(d, s) ||
            __CPROVER_POINTER_OFFSET(d) + n <= __CPROVER_POINTER_OFFSET(s) ||
            __CPROVER_POINTER_OFFSET(s) + n <= __CPROVER_POINTER_OFFSET(d), "memcpy of overlapping blocks");
        if (WORDS(d, n) && WORDS(s, n)) {
            const size_t k = n >> 3;
            void** dd = d;
            void* const* ss = s;
            for (size_t i = 0; i < k; i++) dd[i] = ss[i];
        } else {
            guint8* dd = d;
            const guint8* ss = s;
            for (size_t i = 0; i < n; i++) dd[i] = ss[i];
        }
    }
    return d;
}

void* memmove(void* d, const void* s, size_t n)
{
    if (n) {
        __CPROVER_assert(__CPROVER_w_ok(d, n), "memmove destination is writable");
        __CPROVER_assert(__CPROVER_r_ok(s, n), "memmove source is readable");
        if (WORDS(d, n) && WORDS(s, n)) {
            const size_t k = n >> 3;
            void** dd = d;
            void* const* ss = s;
            if (__CPROVER_same_object(d, s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s)) {
                for (size_t i = k; i > 0; i--) dd[i - 1] = ss[i - 1];
            } else {
                for (size_t i = 0; i < k; i++) dd[i] = ss[i];
            }
        } else {
            guint8* dd = d;
            const guint8* ss = s;
            if (__CPROVER_same_object(d, s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s)) {
                for (size_t i = n; i > 0; i--) dd[i - 1] = ss[i - 1];
            } else {
                for (size_t i = 0; i < n; i++) dd[i] = ss[i];
            }
        }
    }
    return d;
}

void* memset(void* d, int c, size_t n)
{
    if (n) {
        __CPROVER_assert(__CPROVER_w_ok(d, n), "memset destination is writable");
        if (!c && n == __CPROVER_OBJECT_SIZE(d)) {
            /* The whole object */
            __CPROVER_array_set(d, 0);
        } else if (!c && WORDS(d, n)) {
            const size_t k = n >> 3;
            void** dd = d;
            for (size_t i = 0; i < k; i++) dd[i] = NULL;
        } else {
            guint8* dd = d;
            for (size_t i = 0; i < n; i++) dd[i] = (guint8)c;
        }
    }
    return d;
}

int memcmp(const void* a, const void* b, size_t n)
{
    const guint8* p = a;
    const guint8* q = b;
    if (n) {
        __CPROVER_assert(__CPROVER_r_ok(a, n), "memcmp first block is readable");
        __CPROVER_assert(__CPROVER_r_ok(b, n), "memcmp second block is readable");
        for (size_t i = 0; i < n; i++) {
            if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
        }
    }
    return 0;
}

void* memchr(const void* a, int c, size_t n)
{
    const guint8* p = a;
    for (size_t i = 0; i < n; i++) if (p[i] == (guint8)c) return (void*)(p + i);
    return NULL;
}

static const char* vf_str_ptr[8];
static gsize vf_str_len[8];
static guint vf_str_n;
void vf_string(const char* s, gsize n)
{
    vf_str_ptr[vf_str_n] = s;
    vf_str_len[vf_str_n++] = n;
}
void vf_string_gone(const char* s)
{
    guint i;
    for (i = 0; i < vf_str_n; i++) if (vf_str_ptr[i] == s) vf_str_ptr[i] = NULL;
}

/* Length no greater than max */
gsize vf_length_upto(const char* s, gsize max)
{
    gsize n = 0;
    for (guint i = 0; i < vf_str_n; i++) {
        if (vf_str_ptr[i] && __CPROVER_OBJECT_SIZE(s) == __CPROVER_OBJECT_SIZE(vf_str_ptr[i]) && vf_str_ptr[i] == s) {
            n = vf_str_len[i] < max ? vf_str_len[i] : max;
            for (gsize k = 0; k < n; k++) __CPROVER_assert(s[k], "model: length hint");
            if (n < max) __CPROVER_assert(!s[n], "model: length hint");
            return n;
        }
    }
    while (n < max && s[n]) n++;
    return n;
}

size_t strlen(const char* s)
{
    for (guint i = 0; i < vf_str_n; i++) {
        /* The size is there because addresses of literals aren't simplified */
        if (vf_str_ptr[i] && __CPROVER_OBJECT_SIZE(s) == __CPROVER_OBJECT_SIZE(vf_str_ptr[i]) && vf_str_ptr[i] == s) {
            const gsize n = vf_str_len[i];
            for (gsize k = 0; k < n; k++) __CPROVER_assert(s[k], "model: length hint");
            __CPROVER_assert(!s[n], "model: length hint");
            return n;
        }
    }
    for (guint i = 0; i < 2; i++) {
        if (vf_fmt_ptr[i] && __CPROVER_OBJECT_SIZE(s) == __CPROVER_OBJECT_SIZE(vf_fmt_ptr[i]) && s == vf_fmt_ptr[i]) {
            /* Formatted text, and it's still there */
            const gsize n = vf_fmt_len[i];
            for (gsize k = 0; k < n; k++) __CPROVER_assert(s[k], "model: length hint");
            __CPROVER_assert(!s[n], "model: length hint");
            return n;
        }
    }
    size_t n = 0;
    while (s[n]) n++;
    return n;
}

size_t strnlen(const char* s, size_t max) { return vf_length_upto(s, max); }

int strcmp(const char* a, const char* b)
{
    const guint8* p = (void*)a;
    const guint8* q = (void*)b;
    size_t i = 0;
    while (p[i] && p[i] == q[i]) i++;
    return p[i] == q[i] ? 0 : p[i] < q[i] ? -1 : 1;
}

int strncmp(const char* a, const char* b, size_t n)
{
    const guint8* p = (void*)a;
    const guint8* q = (void*)b;
    size_t i = 0;
    if (!n) return 0;
    while (i + 1 < n && p[i] && p[i] == q[i]) i++;
    return p[i] == q[i] ? 0 : p[i] < q[i] ? -1 : 1;
}

char* strchr(const char* s, int c)
{
    for (;; s++) {
        if (*s == (char)c) return (char*)s;
        if (!*s) return NULL;
    }
}

char* strrchr(const char* s, int c)
{
    char* r = NULL;
    for (;; s++) {
        if (*s == (char)c) r = (char*)s;
        if (!*s) return r;
    }
}

char* strcpy(char* d, const char* s)
{
    size_t i = 0;
    do { d[i] = s[i]; } while (s[i++]);
    return d;
}

char* strncpy(char* d, const char* s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}

gchar* g_strdup(const gchar* s)
{
    if (s) {
        const size_t n = strlen(s) + 1;
        char* p = g_malloc(n);
        for (size_t i = 0; i < n; i++) p[i] = s[i];
        return p;
    }
    return NULL;
}

gchar* g_strndup(const gchar* s, gsize n)
{
    if (s) {
        char* p = g_malloc(n + 1);
        size_t i = 0;
        for (; i < n && s[i]; i++) p[i] = s[i];
        for (; i <= n; i++) p[i] = 0;
        return p;
    }
    return NULL;
}

int g_strcmp0(const char* a, const char* b)
{
    return !a ? -(a != b) : !b ? (a != b) : strcmp(a, b);
}

gboolean g_str_equal(gconstpointer a, gconstpointer b) { return !strcmp(a, b); }

gboolean g_str_has_prefix(const gchar* s, const gchar* p)
{
    return !strncmp(s, p, strlen(p));
}

gboolean g_str_has_suffix(const gchar* s, const gchar* p)
{
    const size_t n = strlen(s), k = strlen(p);
    return n >= k && !strcmp(s + (n - k), p);
}

static gboolean vf_isspace(char c)
{
    return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f';
}

gchar* g_strchug(gchar* s)
{
    size_t i = 0, k;
    while (s[i] && vf_isspace(s[i])) i++;
    for (k = 0; s[i + k]; k++) s[k] = s[i + k];
    s[k] = 0;
    return s;
}

gchar* g_strchomp(gchar* s)
{
    size_t n = strlen(s);
    while (n--) {
        if (vf_isspace(s[n])) s[n] = 0; else break;
    }
    return s;
}

static int vf_lower(char c)
{
    return (guint8)((c >= 'A' && c <= 'Z') ? (c + 32) : c);
}

gint g_ascii_strcasecmp(const gchar* a, const gchar* b)
{
    size_t i = 0;
    while (a[i] && b[i]) {
        const int x = vf_lower(a[i]), y = vf_lower(b[i]);
        if (x != y) return x - y;
        i++;
    }
    return (gint)(guint8)a[i] - (gint)(guint8)b[i];
}

gint g_ascii_strncasecmp(const gchar* a, const gchar* b, gsize n)
{
    size_t i = 0;
    while (i < n && a[i] && b[i]) {
        const int x = vf_lower(a[i]), y = vf_lower(b[i]);
        if (x != y) return x - y;
        i++;
    }
    return i < n ? ((gint)(guint8)a[i] - (gint)(guint8)b[i]) : 0;
}
int strcasecmp(const char* a, const char* b) { return g_ascii_strcasecmp(a, b); }
int strncasecmp(const char* a, const char* b, size_t n) { return g_ascii_strncasecmp(a, b, n); }

/* String vectors */
guint g_strv_length(gchar** sv)
{
    guint n = 0;
    while (sv[n]) n++;
    return n;
}

void g_strfreev(gchar** sv)
{
    if (sv) {
        for (guint i = 0; sv[i]; i++) g_free(sv[i]);
        g_free(sv);
    }
}

gchar** g_strdupv(gchar** sv)
{
    if (sv) {
        const guint n = g_strv_length(sv);
        gchar** v = g_malloc_n(n + 1, sizeof(gchar*));
        for (guint i = 0; i < n; i++) v[i] = g_strdup(sv[i]);
        v[n] = NULL;
        return v;
    }
    return NULL;
}

gboolean g_strv_contains(const gchar* const* sv, const gchar* s)
{
    for (; *sv; sv++) if (!strcmp(*sv, s)) return TRUE;
    return FALSE;
}

gboolean g_strv_equal(const gchar* const* a, const gchar* const* b)
{
    for (; *a && *b; a++, b++) if (strcmp(*a, *b)) return FALSE;
    return !*a && !*b;
}

/* Number parsing, a transcription of GLib's g_parse_long_long() */
static int vf_errno;
int* __errno_location(void) { return &vf_errno; }

/* Constant factors keep the multiplier and divider circuits small */
#define BASES(X) switch (base) { case 2: X(2); case 8: X(8); case 10: X(10); case 16: X(16); case 36: X(36); default: __CPROVER_assert(0, "model: number base"); __CPROVER_assume(0); X(10); }
static guint64 vf_mul_base(guint64 x, guint base)
{
#define X(b) return x * (b)
    BASES(X)
#undef X
}
static guint64 vf_cutoff(guint base)
{
#define X(b) return G_MAXUINT64 / (b)
    BASES(X)
#undef X
}
static guint64 vf_cutlim(guint base)
{
#define X(b) return G_MAXUINT64 % (b)
    BASES(X)
#undef X
}

static guint64 vf_parse_ll(const gchar* nptr, const gchar** endptr, guint base, gboolean* negative)
{
    gboolean overflow = FALSE;
    guint64 cutoff, cutlim, ui64 = 0;
    const gchar* s = nptr;
    const gchar* save;
    guint8 c;

    *negative = FALSE;
    if (base == 1 || base > 36) {
        errno = EINVAL;
        if (endptr) *endptr = nptr;
        return 0;
    }
    while (*s == ' ' || (*s >= 9 && *s <= 13)) ++s;
    if (!*s) goto noconv;
    if (*s == '-') {
        *negative = TRUE;
        ++s;
    } else if (*s == '+') {
        ++s;
    }
    if (*s == '0') {
        if ((base == 0 || base == 16) && (s[1] == 'x' || s[1] == 'X')) {
            s += 2;
            base = 16;
        } else if (base == 0) {
            base = 8;
        }
    } else if (base == 0) {
        base = 10;
    }
    save = s;
    cutoff = vf_cutoff(base);
    cutlim = vf_cutlim(base);
    for (c = *s; c; c = *++s) {
        if (c >= '0' && c <= '9') c -= '0';
        else if (c >= 'a' && c <= 'z') c = c - 'a' + 10;
        else if (c >= 'A' && c <= 'Z') c = c - 'A' + 10;
        else break;
        if (c >= base) break;
        if (ui64 > cutoff || (ui64 == cutoff && c > cutlim)) {
            overflow = TRUE;
        } else {
            ui64 = vf_mul_base(ui64, base);
            ui64 += c;
        }
    }
    if (s == save) goto noconv;
    if (endptr) *endptr = s;
    if (overflow) {
        errno = ERANGE;
        return G_MAXUINT64;
    }
    return ui64;
noconv:
    if (endptr) {
        if (s - nptr >= 2 && (s[-1] == 'x' || s[-1] == 'X') && s[-2] == '0') {
            *endptr = &s[-1];
        } else {
            *endptr = nptr;
        }
    }
    return 0;
}

guint64 g_ascii_strtoull(const gchar* s, gchar** end, guint base)
{
    gboolean neg;
    const guint64 r = vf_parse_ll(s, (const gchar**)end, base, &neg);
    return neg ? -r : r;
}

gint64 g_ascii_strtoll(const gchar* s, gchar** end, guint base)
{
    gboolean neg;
    const guint64 r = vf_parse_ll(s, (const gchar**)end, base, &neg);
    if (neg && r > (guint64)G_MININT64) {
        errno = ERANGE;
        return G_MININT64;
    } else if (!neg && r > (guint64)G_MAXINT64) {
        errno = ERANGE;
        return G_MAXINT64;
    }
    return neg ? (gint64)-r : (gint64)r;
}
