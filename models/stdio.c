/* Formatted output. Everything written to any stream is collected in vf_out. */
#include "vf.h"
#include "vf_stdio.h"
#include <stdarg.h>
#include <stdio.h>

typedef struct { char* buf; gsize size; gsize n; } Sink;

/* What has been formatted last, see strlen() */
const char* vf_fmt_ptr[2];
gsize vf_fmt_len[2];
static guint vf_fmt_pos;

static void put(Sink* s, char c)
{
    if (s->n + 1 < s->size) s->buf[s->n] = c;
    s->n++;
}
static void put_number(Sink* s, guint64 v, guint base, gboolean upper, gboolean neg, guint width, gboolean zero)
{
    char t[24];
    guint n = 0, k;
    const char* digits = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    if (base == 16 && zero && width == 2) {
        /* Most likely a byte: the number of digits doesn't depend on it */
        __CPROVER_assert(v < 0x100, "model: value of two hex digits");
        put(s, digits[(v >> 4) & 15]);
        put(s, digits[v & 15]);
        return;
    }
    do {
        t[n++] = digits[base == 16 ? (v & 15) : (v % 10)];
        v = base == 16 ? (v >> 4) : (v / 10);
    } while (v);
    if (neg && zero) put(s, '-');
    for (k = n + neg; k < width; k++) put(s, zero ? '0' : ' ');
    if (neg && !zero) put(s, '-');
    while (n) put(s, t[--n]);
}
/* Small arguments come without being promoted to int. Unsigned ones, most
 * likely. */
#define ARG_SIZE(va) __CPROVER_OBJECT_SIZE(*(void**)(va))
#define ARG_INT(va) (ARG_SIZE(va) == 1 ? (int) va_arg(va, guint8) : ARG_SIZE(va) == 2 ? (int) va_arg(va, guint16) : va_arg(va, int))
gsize vf_length_upto(const char* s, gsize max);
static void vf_format(Sink* s, const char* f, va_list va)
{
#ifdef VF_NO_OUTPUT
    return;     /* Nobody looks at it */
#endif
    while (*f) {
        gboolean left = FALSE, zero = FALSE, has_prec = FALSE;
        guint width = 0, prec = 0, longs = 0;

        if (*f != '%') { put(s, *f++); continue; }
        f++;
        while (*f == '-' || *f == '0') { if (*f == '-') left = TRUE; else zero = TRUE; f++; }
        if (*f == '*') { width = (guint) va_arg(va, int); f++; }
        else while (*f >= '0' && *f <= '9') width = 10 * width + (*f++ - '0');
        if (*f == '.') {
            has_prec = TRUE;
            f++;
            if (*f == '*') { prec = (guint) va_arg(va, int); f++; }
            else while (*f >= '0' && *f <= '9') prec = 10 * prec + (*f++ - '0');
        }
        while (*f == 'l' || *f == 'z' || *f == 'j') { longs++; f++; }
        while (*f == 'h') f++;
        switch (*f++) {
        case '%': put(s, '%'); break;
        case 'c': put(s, (char) ARG_INT(va)); break;
        case 's': {
            const char* p = va_arg(va, const char*);
            gsize n = 0, k;
            if (!p) p = "(null)";
            if (has_prec) n = vf_length_upto(p, prec);
            else n = strlen(p);
            if (!left) for (k = n; k < width; k++) put(s, ' ');
            for (k = 0; k < n; k++) put(s, p[k]);
            if (left) for (k = n; k < width; k++) put(s, ' ');
            break;
        }
        case 'd': case 'i': {
            const gint64 v = longs ? va_arg(va, gint64) : (gint64) ARG_INT(va);
            put_number(s, v < 0 ? - (guint64) v : (guint64) v, 10, FALSE, v < 0, width, zero);
            break;
        }
        case 'u': put_number(s, longs ? va_arg(va, guint64) : (guint) ARG_INT(va), 10, FALSE, FALSE, width, zero); break;
        case 'x': put_number(s, longs ? va_arg(va, guint64) : (guint) ARG_INT(va), 16, FALSE, FALSE, width, zero); break;
        case 'X': put_number(s, longs ? va_arg(va, guint64) : (guint) ARG_INT(va), 16, TRUE, FALSE, width, zero); break;
        case 'p': (void) va_arg(va, void*); put(s, '?'); break;
        default: __CPROVER_assert(0, "model: conversion specifier"); break;
        }
    }
}

/* The text isn't terminated, the length is returned */
gsize vf_render(char* buf, gsize size, const char* f, va_list va)
{
    Sink s = { buf, size, 0 };
    vf_format(&s, f, va);
    __CPROVER_assert(s.n < size, "model: size of formatted text");
    return s.n;
}

gint g_vsnprintf(gchar* buf, gulong size, const gchar* f, va_list va)
{
    Sink s = { buf, size, 0 };
    vf_format(&s, f, va);
    if (size) buf[s.n < size ? s.n : size - 1] = 0;
    vf_fmt_ptr[vf_fmt_pos] = buf;
    vf_fmt_len[vf_fmt_pos] = s.n < size ? s.n : size - 1;
    vf_fmt_pos = 1 - vf_fmt_pos;
    return (gint) s.n;
}
gint g_snprintf(gchar* buf, gulong size, const gchar* f, ...)
{
    va_list va;
    gint n;
    va_start(va, f);
    n = g_vsnprintf(buf, size, f, va);
    va_end(va);
    return n;
}
int vsnprintf(char* buf, size_t size, const char* f, va_list va) { return g_vsnprintf(buf, size, f, va); }
int snprintf(char* buf, size_t size, const char* f, ...)
{
    va_list va;
    int n;
    va_start(va, f);
    n = g_vsnprintf(buf, size, f, va);
    va_end(va);
    return n;
}
gchar* g_strdup_vprintf(const gchar* f, va_list va)
{
    static char scratch[VF_OUT_SIZE];
    gchar* out;
    Sink s = { scratch, sizeof(scratch), 0 };
    gsize k;
    vf_format(&s, f, va);
    __CPROVER_assert(s.n < sizeof(scratch), "model: size of formatted text");
    out = g_malloc(s.n + 1);
    for (k = 0; k < s.n; k++) out[k] = scratch[k];
    out[s.n] = 0;
    return out;
}
gchar* g_strdup_printf(const gchar* f, ...)
{
    va_list va;
    gchar* s;
    va_start(va, f);
    s = g_strdup_vprintf(f, va);
    va_end(va);
    return s;
}

char vf_out[VF_OUT_SIZE];
gsize vf_out_len;
FILE* vf_out_file;
static FILE vf_stdout, vf_stderr;
FILE* stdout = &vf_stdout;
FILE* stderr = &vf_stderr;
long syscall(long n, ...) { return 4711; }
static void vf_out_to(FILE* f)
{
    __CPROVER_assert(!vf_out_len || vf_out_file == f, "model: one stream at a time");
    vf_out_file = f;
}
static void vf_out_done(Sink* s)
{
    __CPROVER_assert(s->n < s->size, "model: size of the output");
    vf_out_len = s->n;
}
int vfprintf(FILE* f, const char* fmt, va_list va)
{
    Sink s = { vf_out, sizeof(vf_out), vf_out_len };
    vf_out_to(f);
    vf_format(&s, fmt, va);
    vf_out_done(&s);
    return (int) s.n;
}
int fprintf(FILE* f, const char* fmt, ...)
{
    va_list va;
    int n;
    va_start(va, fmt);
    n = vfprintf(f, fmt, va);
    va_end(va);
    return n;
}
int vprintf(const char* fmt, va_list va) { return vfprintf(stdout, fmt, va); }
int printf(const char* fmt, ...)
{
    va_list va;
    int n;
    va_start(va, fmt);
    n = vfprintf(stdout, fmt, va);
    va_end(va);
    return n;
}
size_t fwrite(const void* p, size_t size, size_t n, FILE* f)
{
    Sink s = { vf_out, sizeof(vf_out), vf_out_len };
    size_t k;
    vf_out_to(f);
    for (k = 0; k < n * size; k++) put(&s, ((const char*)p)[k]);
    vf_out_done(&s);
    return n;
}
int fputs(const char* p, FILE* f) { fwrite(p, 1, strlen(p), f); return 1; }
int fputc(int c, FILE* f) { char x = (char) c; fwrite(&x, 1, 1, f); return c; }
int putc(int c, FILE* f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int puts(const char* p) { fputs(p, stdout); return fputc('\n', stdout); }
int fflush(FILE* f) { return 0; }

/* Errors */
GQuark g_option_error_quark(void) { return 1001; }
GError* g_error_new_literal(GQuark domain, gint code, const gchar* message)
{
    GError* e = VF_NEW(GError);
    e->domain = domain;
    e->code = code;
    e->message = g_strdup(message);
    return e;
}
/* The text of a message isn't modelled, only its presence */
GError* g_error_new(GQuark domain, gint code, const gchar* f, ...) { return g_error_new_literal(domain, code, "error"); }
GError* g_error_new_valist(GQuark domain, gint code, const gchar* f, va_list va) { return g_error_new_literal(domain, code, "error"); }
void g_set_error(GError** err, GQuark domain, gint code, const gchar* f, ...)
{
    if (err) {
        __CPROVER_assert(!*err, "GLib critical warning: error set over another one");
        *err = g_error_new_literal(domain, code, "error");
    }
}
void g_set_error_literal(GError** err, GQuark domain, gint code, const gchar* m)
{
    if (err) {
        __CPROVER_assert(!*err, "GLib critical warning: error set over another one");
        *err = g_error_new_literal(domain, code, m);
    }
}
void g_error_free(GError* e)
{
    g_free(e->message);
    g_free(e);
}
void g_clear_error(GError** e) { if (e && *e) { g_error_free(*e); *e = NULL; } }
void g_propagate_error(GError** d, GError* e)
{
    if (d) *d = e; else if (e) g_error_free(e);
}
