/* Hexadecimal text, parsing, data blocks and byte objects: C07..C12 */
#include "vf.h"
#include "gutil_misc.h"
#include <limits.h>
#include <string.h>

#ifndef MAXLEN
#define MAXLEN 4
#endif
#ifndef MINLEN
#define MINLEN 0
#endif

static guint8* block(guint len)
{
    guint8* b = g_malloc(len ? len : 1);
    guint i;
    for (i = 0; i < len; i++) b[i] = vf_u8();
    return b;
}

static char* text(guint len)
{
    char* s = g_malloc(len + 1);
    guint i;
    for (i = 0; i < len; i++) {
        s[i] = (char) vf_u8();
        VF_ASSUME(s[i]);
    }
    s[len] = 0;
    VF_STRING(s, len);
    return s;
}

static int hexval(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}

/* C07 */
void h_bin2hex(void)
{
    VF_SPLIT(len, 0, MAXLEN) VF_SPLIT(upper, 0, 1) {
        const gint64 live = vf_live();
        guint8* in = block(len);
        guint8* copy = block(0);
        const gboolean viadata = vf_bool();
        GUtilData data;
        char* hex;
        int i;
        gsize n = 1;

        data.bytes = in;
        data.size = len;
        hex = viadata ? gutil_data2hex(&data, upper) : gutil_bin2hex(in, len, upper);
        VF_CHECK(hex != NULL, "text is produced");
        for (i = 0; i < len; i++) {
            const char* map = upper ? "0123456789ABCDEF" : "0123456789abcdef";
            VF_CHECK(hex[2 * i] == map[in[i] >> 4], "high digit in the requested case");
            VF_CHECK(hex[2 * i + 1] == map[in[i] & 15], "low digit in the requested case");
        }
        VF_CHECK(!hex[2 * len], "text is terminated after two digits per byte");
        if (len) {
            guint8* back = g_malloc(len);
            GBytes* bytes;
            const guint8* p;

            VF_CHECK(gutil_hex2bin(hex, 2 * len, back) == back, "own output is accepted");
            for (i = 0; i < len; i++) VF_CHECK(back[i] == in[i], "bytes survive the round trip");
            bytes = gutil_hex2bytes(hex, vf_bool() ? -1 : 2 * len);
            VF_CHECK(bytes != NULL, "own output is accepted as a byte object");
            p = g_bytes_get_data(bytes, &n);
            VF_CHECK(n == (gsize)len, "byte object has the original size");
            for (i = 0; i < len; i++) VF_CHECK(p[i] == in[i], "byte object has the original contents");
            g_bytes_unref(bytes);
            g_free(back);
        }
        g_free(hex);
        g_free(copy);
        g_free(in);
        VF_CHECK(!gutil_data2hex(NULL, upper), "absent data gives no text");
        VF_NOLEAK(live);
        VF_END("bin2hex");
    }
}

void h_hex2bin(void)
{
    VF_SPLIT(len, 0, MAXLEN) {
        const gint64 live = vf_live();
        char* s = (char*) block(len); /* not terminated */
        guint8* out = g_malloc(len / 2 ? len / 2 : 1);
        gboolean valid = len > 0 && !(len & 1);
        GBytes* bytes;
        int i;

        for (i = 0; i < len; i++) if (hexval(s[i]) < 0) valid = FALSE;
        VF_CHECK(gutil_hex2bin(s, len, out) == (valid ? out : NULL), "exactly hexadecimal text of even length is accepted");
        if (valid) for (i = 0; i < len / 2; i++)
            VF_CHECK(out[i] == hexval(s[2 * i]) * 16 + hexval(s[2 * i + 1]), "bytes denoted by the digits");
        bytes = gutil_hex2bytes(s, len);
        VF_CHECK(!bytes == !valid, "exactly hexadecimal text of even length makes a byte object");
        if (bytes) {
            gsize n = 0;
            const guint8* p = g_bytes_get_data(bytes, &n);
            VF_CHECK(n == (gsize)(len / 2), "byte object has half the length");
            for (i = 0; i < len / 2; i++)
                VF_CHECK(p[i] == hexval(s[2 * i]) * 16 + hexval(s[2 * i + 1]), "contents denoted by the digits");
            g_bytes_unref(bytes);
        }
        VF_CHECK(!gutil_hex2bin(NULL, len, out), "absent text is rejected");
        VF_CHECK(!gutil_hex2bin(s, len, NULL), "absent destination is rejected");
        VF_CHECK(!gutil_hex2bin(s, - (gssize) vf_u32(), out), "negative and zero length is rejected");
        VF_CHECK(!gutil_hex2bytes(NULL, (gssize) vf_i64()), "absent text makes nothing");
        g_free(out);
        g_free(s);
        VF_NOLEAK(live);
        VF_END("hex2bin");
    }
}

/* Implicit length */
void h_hex2bytes(void)
{
    VF_SPLIT(len, 0, MAXLEN) {
        const gint64 live = vf_live();
        char* s = text(len);
        gboolean valid = len > 0 && !(len & 1);
        gssize neg = - (gssize) vf_u32() - 1;
        GBytes* bytes;
        int i;

        for (i = 0; i < len; i++) if (hexval(s[i]) < 0) valid = FALSE;
        bytes = gutil_hex2bytes(s, neg);
        VF_CHECK(!bytes == !valid, "exactly hexadecimal text of even length makes a byte object");
        if (bytes) {
            gsize n = 0;
            const guint8* p = g_bytes_get_data(bytes, &n);
            VF_CHECK(n == (gsize)(len / 2), "byte object has half the length");
            for (i = 0; i < len / 2; i++)
                VF_CHECK(p[i] == hexval(s[2 * i]) * 16 + hexval(s[2 * i + 1]), "contents denoted by the digits");
            g_bytes_unref(bytes);
        }
        g_free(s);
        VF_NOLEAK(live);
        VF_END("hex2bytes");
    }
}

/* C08 */
void h_hexdump(void)
{
    VF_SPLIT(len, 0, 18) {
        const gboolean big = (len == 18);
        guint8* in = block(big ? 24 : len);
        char* buf = g_malloc(GUTIL_HEXDUMP_BUFSIZE);
        guint size = len, n, shown, i, col = 0;

        if (big) {
            size = vf_u32();
            VF_ASSUME(size >= 24);
        }
        shown = MIN(size, 16);
        n = gutil_hexdump(buf, in, size);
        VF_CHECK(n == shown, "number of bytes shown");
        for (i = 0; i < 16; i++) {
            const char* map = "0123456789abcdef";
            if (i) { VF_CHECK(buf[col] == ' ', "bytes are separated"); col++; }
            if (i == 8) { VF_CHECK(buf[col] == ' ', "extra space in the middle"); col++; }
            VF_CHECK(buf[col] == (i < shown ? map[in[i] >> 4] : ' '), "high digit or padding");
            VF_CHECK(buf[col + 1] == (i < shown ? map[in[i] & 15] : ' '), "low digit or padding");
            col += 2;
        }
        for (i = 0; i < 4; i++) { VF_CHECK(buf[col] == ' ', "gap between the columns"); col++; }
        for (i = 0; i < shown; i++) {
            if (i == 8) { VF_CHECK(buf[col] == ' ', "extra space in the middle of the text"); col++; }
            VF_CHECK(buf[col] == ((in[i] >= 0x20 && in[i] < 0x7f) ? (char) in[i] : '.'), "printable character or dot");
            col++;
        }
        VF_CHECK(!buf[col], "line is terminated");
        g_free(buf);
        g_free(in);
        VF_END("hexdump");
    }
}

/* C09 */
#ifndef BASE
#define BASE 10
#endif
#ifndef PREFIX
#define PREFIX ""
#endif

static gboolean is_space(char c)
{
    return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f';
}

typedef struct { gboolean ok, neg, unclear, big; guint64 mag; } Ref;

static guint64 times(guint64 x, int base)
{
    switch (base) {
    case 2: return x << 1;
    case 8: return x << 3;
    case 10: return x * 10;
    case 16: return x << 4;
    case 36: return x * 36;
    default: return x * base;
    }
}

/* Independent reading of the documented rules */
static Ref reference(const char* s, int len, int base)
{
    Ref r;
    int i = 0, end = len, digits = 0, k;

    memset(&r, 0, sizeof(r));
    /* Vertical tab counts as whitespace for some functions but not others */
    for (k = 0; k < len; k++) if (s[k] == '\v') r.unclear = TRUE;
    while (end > 0 && is_space(s[end - 1])) end--;
    while (i < end && is_space(s[i])) i++;
    if (i < end && (s[i] == '-' || s[i] == '+')) {
        r.neg = (s[i] == '-');
        i++;
    }
    if ((base == 16 || base == 0) && i + 1 < end && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) {
        base = 16;
        i += 2;
    } else if (base == 0) {
        base = (i < end && s[i] == '0') ? 8 : 10;
    }
    for (; i < end; i++) {
        const char c = s[i];
        int d;
        if (c >= '0' && c <= '9') d = c - '0';
        else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
        else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
        else return r;
        if (d >= base) return r;
        if (!r.big) {
            /* Split into 32-bit halves to notice the overflow */
            const guint64 lo = times(r.mag & 0xffffffff, base) + d;
            const guint64 hi = times(r.mag >> 32, base) + (lo >> 32);
            r.mag = (hi << 32) | (lo & 0xffffffff);
            r.big = (hi >> 32) != 0;
        }
        digits++;
    }
    r.ok = digits > 0;
    return r;
}

static void parse_check(const char* s, int len, int base)
{
    const Ref r = reference(s, len, base);
    const int old = vf_int();
    const gint64 old64 = vf_i64();
    int i = old;
    unsigned int u = (unsigned)old;
    gint64 i64 = old64;
    guint64 u64 = (guint64)old64;
    gboolean ok;
    gboolean fits;

#if TYPES & 1
    fits = r.ok && !r.big && r.mag <= (r.neg ? 1ull << 31 : (1ull << 31) - 1);
    ok = gutil_parse_int(s, base, &i);
    if (!r.unclear) VF_CHECK(!ok == !fits, "int: exactly numbers in range are accepted");
    VF_CHECK(i == (ok && r.ok ? (int)(r.neg ? -(gint64)r.mag : (gint64)r.mag) : i) && (ok || i == old), "int: value or untouched");
    VF_CHECK(gutil_parse_int(s, base, NULL) == ok, "int: destination may be omitted");
#endif
#if TYPES & 2
    fits = r.ok && !r.big && !r.neg && r.mag <= G_MAXUINT32;
    ok = gutil_parse_uint(s, base, &u);
    if (!r.unclear) VF_CHECK(!ok == !fits, "uint: exactly numbers in range are accepted");
    if (r.neg) VF_CHECK(!ok, "uint: negative numbers are rejected");
    VF_CHECK(u == (ok && r.ok ? (unsigned)r.mag : u) && (ok || u == (unsigned)old), "uint: value or untouched");
    VF_CHECK(gutil_parse_uint(s, base, NULL) == ok, "uint: destination may be omitted");
#endif
#if TYPES & 4
    fits = r.ok && !r.big && r.mag <= (r.neg ? 1ull << 63 : (1ull << 63) - 1);
    ok = gutil_parse_int64(s, base, &i64);
    if (!r.unclear) VF_CHECK(!ok == !fits, "int64: exactly numbers in range are accepted");
    VF_CHECK(i64 == (ok && r.ok ? (gint64)(r.neg ? -(guint64)r.mag : (guint64)r.mag) : i64) && (ok || i64 == old64), "int64: value or untouched");
    VF_CHECK(gutil_parse_int64(s, base, NULL) == ok, "int64: destination may be omitted");
#endif
#if TYPES & 8
    fits = r.ok && !r.big && !r.neg;
    ok = gutil_parse_uint64(s, base, &u64);
    if (!r.unclear) VF_CHECK(!ok == !fits, "uint64: exactly numbers in range are accepted");
    if (r.unclear) {
        int k;
        for (k = 0; k < len; k++) if (s[k] == '-') VF_CHECK(!ok, "uint64: no minus is accepted");
    }
    VF_CHECK(u64 == (ok && r.ok ? (guint64)r.mag : u64) && (ok || u64 == (guint64)old64), "uint64: value or untouched");
    VF_CHECK(gutil_parse_uint64(s, base, NULL) == ok, "uint64: destination may be omitted");
#endif
}

void h_parse(void)
{
    VF_SPLIT(len, MINLEN, MAXLEN) {
        const gint64 live = vf_live();
        char* s = text(len);
        parse_check(s, len, BASE);
        g_free(s);
        VF_NOLEAK(live);
        VF_END("parse");
    }
}

/* Around the limits: a concrete head followed by symbolic characters */
void h_parse_limits(void)
{
    static const char* const heads[] = { HEADS };
    VF_SPLIT(k, 0, (int)G_N_ELEMENTS(heads) - 1) {
        const gint64 live = vf_live();
        const int hl = strlen(heads[k]);
        char* s = g_malloc(hl + TAIL + 1);
        int i;
        for (i = 0; i < hl; i++) s[i] = heads[k][i];
        for (i = 0; i < TAIL; i++) {
            s[hl + i] = (char) vf_u8();
            VF_ASSUME(s[hl + i]);
        }
        s[hl + TAIL] = 0;
        VF_STRING(s, hl + TAIL);
        parse_check(s, hl + TAIL, BASE);
        g_free(s);
        VF_NOLEAK(live);
        VF_END("parse limits");
    }
}

void h_parse_null(void)
{
    const int base = vf_range(0, 36);
    const int old = vf_int();
    int i = old;
    unsigned int u = (unsigned)old;
    gint64 i64 = old;
    guint64 u64 = (guint64)old;

    VF_CHECK(!gutil_parse_int(NULL, base, &i) && i == old, "absent text is not an int");
    VF_CHECK(!gutil_parse_uint(NULL, base, &u) && u == (unsigned)old, "absent text is not an uint");
    VF_CHECK(!gutil_parse_int64(NULL, base, &i64) && i64 == old, "absent text is not an int64");
    VF_CHECK(!gutil_parse_uint64(NULL, base, &u64) && u64 == (guint64)old, "absent text is not an uint64");
    VF_END("parse null");
}

/* C10 */
typedef struct { GUtilData d; guint8* mem; } Blk;
static Blk blk(int len) /* -1: no bytes at all (NULL pointer, zero size) */
{
    Blk b;
    b.mem = len < 0 ? NULL : block(len);
    b.d.bytes = b.mem;
    b.d.size = len < 0 ? 0 : len;
    return b;
}

void h_equal(void)
{
    VF_SPLIT(la, -1, MAXLEN) VF_SPLIT(lb, -1, MAXLEN) {
        const gint64 live = vf_live();
        Blk a = blk(la), b = blk(lb);
        const gsize na = a.d.size, nb = b.d.size;
        gboolean eq = na == nb, pre = nb <= na, suf = nb <= na;
        GBytes* bytes = g_bytes_new_static(na ? a.mem : (const guint8*)"", na);
        GUtilRange r, r2;
        gsize i;

        for (i = 0; i < na && i < nb; i++) {
            if (a.mem[i] != b.mem[i]) eq = pre = FALSE;
            if (a.mem[na - 1 - i] != b.mem[nb - 1 - i]) suf = FALSE;
        }
        VF_CHECK(!gutil_data_equal(&a.d, &b.d) == !eq, "blocks are equal when length and contents are");
        VF_CHECK(!gutil_data_has_prefix(&a.d, &b.d) == !pre, "prefix test");
        VF_CHECK(!gutil_data_has_suffix(&a.d, &b.d) == !suf, "suffix test");
        VF_CHECK(!gutil_bytes_equal_data(bytes, &b.d) == !eq, "byte object equals block");
        if (b.mem) VF_CHECK(!gutil_bytes_equal(bytes, b.mem, nb) == !eq, "byte object equals memory");
        VF_CHECK(!gutil_bytes_has_prefix(bytes, b.mem, nb) == !pre, "byte object prefix test");
        VF_CHECK(!gutil_bytes_has_suffix(bytes, b.mem, nb) == !suf, "byte object suffix test");
        if (a.mem) {
            r.ptr = a.mem;
            r.end = a.mem + na;
            r2 = r;
            VF_CHECK(!gutil_range_has_prefix(&r, &b.d) == !pre, "range prefix test");
            VF_CHECK(r.ptr == r2.ptr && r.end == r2.end, "the test changes nothing");
            VF_CHECK(!gutil_range_skip_prefix(&r, &b.d) == !pre, "a prefix which is there is skipped");
            VF_CHECK(r.ptr == r2.ptr + (pre ? nb : 0) && r.end == r2.end, "the range advances by the prefix or stays");
        }
        g_bytes_unref(bytes);
        g_free(a.mem);
        g_free(b.mem);
        VF_NOLEAK(live);
        VF_END("equal");
    }
}

/* C10: absent arguments */
void h_equal_null(void)
{
    VF_SPLIT(la, -1, 2) {
        Blk a = blk(la);
        GBytes* bytes = g_bytes_new_static("ab", 2);
        const gsize anysize = vf_u64();
        GUtilRange r, r0;

        VF_CHECK(gutil_data_equal(NULL, NULL), "absent blocks are equal");
        VF_CHECK(!gutil_data_equal(NULL, &a.d) && !gutil_data_equal(&a.d, NULL), "absent block equals nothing else");
        VF_CHECK(gutil_data_equal(&a.d, &a.d), "a block equals itself");
        VF_CHECK(gutil_data_has_prefix(NULL, NULL) && gutil_data_has_suffix(NULL, NULL), "nothing begins and ends with nothing");
        VF_CHECK(!gutil_data_has_prefix(NULL, &a.d) && !gutil_data_has_prefix(&a.d, NULL), "absence is no prefix");
        VF_CHECK(!gutil_data_has_suffix(NULL, &a.d) && !gutil_data_has_suffix(&a.d, NULL), "absence is no suffix");
        VF_CHECK(gutil_bytes_equal(NULL, NULL, anysize), "absent byte object equals absent memory");
        VF_CHECK(!gutil_bytes_equal(bytes, NULL, anysize) && !gutil_bytes_equal(NULL, "ab", anysize), "absence equals nothing else");
        VF_CHECK(gutil_bytes_equal_data(NULL, NULL) && !gutil_bytes_equal_data(bytes, NULL) &&
            !gutil_bytes_equal_data(NULL, &a.d), "absent block and byte object");
        VF_CHECK(!gutil_bytes_has_prefix(NULL, a.mem, a.d.size) && !gutil_bytes_has_suffix(NULL, a.mem, a.d.size), "absent byte object has no prefix or suffix");
        VF_CHECK(gutil_bytes_has_prefix(bytes, NULL, 0) && gutil_bytes_has_suffix(bytes, NULL, 0), "everything has the empty prefix and suffix");
        VF_CHECK(!gutil_range_has_prefix(NULL, &a.d) && !gutil_range_has_prefix(NULL, NULL), "absent range has no prefix");
        VF_CHECK(!gutil_range_skip_prefix(NULL, &a.d), "absent range is not advanced");
        r.ptr = r.end = NULL;
        r0 = r;
        VF_CHECK(!gutil_range_has_prefix(&r, &a.d) && !gutil_range_skip_prefix(&r, &a.d), "null range has no prefix");
        VF_CHECK(r.ptr == r0.ptr && r.end == r0.end, "null range is not changed");
        if (a.mem) {
            r.ptr = a.mem;
            r.end = a.mem + a.d.size;
            r0 = r;
            VF_CHECK(!gutil_range_has_prefix(&r, NULL) && !gutil_range_skip_prefix(&r, NULL), "absent prefix is not there");
            VF_CHECK(r.ptr == r0.ptr && r.end == r0.end, "range is not changed");
        }
        g_bytes_unref(bytes);
        g_free(a.mem);
        VF_END("equal null");
    }
}

/* C11 */
typedef struct { GBytes* b; guint8* mem; gsize n; } Byt;
static Byt byt(int len)
{
    Byt x;
    gsize i;
    guint8* copy;
    x.mem = block(len);
    x.n = len;
    copy = g_malloc(len ? len : 1);
    for (i = 0; i < x.n; i++) copy[i] = x.mem[i];
    x.b = g_bytes_new_take(copy, len);
    return x;
}
static void byt_done(Byt* x)
{
    gsize n = 0, i;
    const guint8* p = g_bytes_get_data(x->b, &n);
    VF_CHECK(n == x->n, "input keeps its size");
    for (i = 0; i < n; i++) VF_CHECK(p[i] == x->mem[i], "input is not modified");
    g_bytes_unref(x->b);
    g_free(x->mem);
}

void h_concat(void)
{
    VF_SPLIT(count, 1, 3) VF_SPLIT(l1, 0, MAXLEN) VF_SPLIT(l2, 0, MAXLEN) VF_SPLIT(l3, 0, MAXLEN) {
        const gint64 live = vf_live();
        Byt a, b, c;
        GBytes* res;
        const guint8* p;
        gsize n = 0, total, i;

        if ((count < 2 && l2) || (count < 3 && l3)) VF_STOP();
        a = byt(l1);
        b = byt(l2);
        c = byt(l3);
        res = count == 1 ? gutil_bytes_concat(a.b, NULL) :
            count == 2 ? gutil_bytes_concat(a.b, b.b, NULL) :
            gutil_bytes_concat(a.b, b.b, c.b, NULL);
        VF_CHECK(res != NULL, "there is a result");
        p = g_bytes_get_data(res, &n);
        total = l1 + (count > 1 ? l2 : 0) + (count > 2 ? l3 : 0);
        VF_CHECK(n == total, "size is the sum");
        for (i = 0; i < total; i++)
            VF_CHECK(p[i] == (i < (gsize)l1 ? a.mem[i] : i < (gsize)(l1 + l2) ? b.mem[i - l1] : c.mem[i - l1 - l2]), "contents are concatenated in order");
        g_bytes_unref(res);
        byt_done(&a);
        byt_done(&b);
        byt_done(&c);
        VF_CHECK(!gutil_bytes_concat(NULL), "nothing to concatenate");
        VF_NOLEAK(live);
        if (count == 3 || (count == 2 && !l3) || (!l2 && !l3)) VF_REACH("concat");
        VF_STOP();
    }
}

/* Sizes around the word boundary */
void h_xor(void)
{
    static const guint8 sizes[] = { XSIZES };
    VF_SPLIT(i1, 0, (int) sizeof(sizes) - 1) VF_SPLIT(i2, 0, (int) sizeof(sizes) - 1) {
        const gint64 live = vf_live();
        const gsize l1 = sizes[i1], l2 = sizes[i2];
        Byt a = byt(l1), b = byt(l2);
        GBytes* res = gutil_bytes_xor(a.b, b.b);
        const guint8* p;
        gsize n = 0, i;

        VF_CHECK(res != NULL, "there is a result");
        p = g_bytes_get_data(res, &n);
        VF_CHECK(n == MIN(l1, l2), "size is the shorter one");
        for (i = 0; i < n; i++) VF_CHECK(p[i] == (a.mem[i] ^ b.mem[i]), "contents are the exclusive or");
        g_bytes_unref(res);
        VF_CHECK(!gutil_bytes_xor(a.b, NULL) && !gutil_bytes_xor(NULL, b.b) && !gutil_bytes_xor(NULL, NULL), "absent operand, absent result");
        byt_done(&a);
        byt_done(&b);
        VF_NOLEAK(live);
        VF_END("xor");
    }
}

/* C12 */
void h_data(void)
{
    VF_SPLIT(len, -1, MAXLEN) {
        const gint64 live = vf_live();
        Blk a = blk(len);
        GUtilData *d, *c;
        void* m;
        gsize i;
        GVariant* v;

        d = gutil_data_new(a.mem, a.mem ? a.d.size : vf_range(0, 3));
        c = gutil_data_copy(&a.d);
        VF_CHECK(d && c, "blocks are created");
        VF_CHECK(d->size == a.d.size && c->size == a.d.size, "size is the given one");
        if (!a.mem) VF_CHECK(!d->bytes && !c->bytes, "no bytes, no contents");
        m = gutil_memdup(a.mem, a.d.size);
        VF_CHECK(!m == !a.d.size, "memory is duplicated if there is some");
        v = g_variant_ref_sink(gutil_data_copy_as_variant(&a.d));
        for (i = 0; i < a.d.size; i++) {
            const guint8 was = a.mem[i];
            a.mem[i] = vf_u8(); /* the copies don't notice */
            VF_CHECK(d->bytes[i] == was && c->bytes[i] == was, "contents are an independent copy");
            VF_CHECK(((guint8*)m)[i] == was, "duplicate is an independent copy");
        }
        if (a.d.size) VF_CHECK(m != a.mem && d->bytes != a.mem && c->bytes != a.mem && c->bytes != d->bytes, "copies are separate memory");
        g_free(d);
        if (a.d.size) {
            const guint8 x = vf_u8();
            ((guint8*)c->bytes)[0] = x;
            ((guint8*)c->bytes)[a.d.size - 1] = x;
            VF_CHECK(c->bytes[0] == x, "the copy is writable and survives");
        }
        g_free(c);
        g_free(m);
        g_variant_unref(v);
        g_free(a.mem);
        VF_CHECK(!gutil_data_copy(NULL) && !gutil_data_copy_as_variant(NULL), "absent data, absent copy");
        VF_CHECK(!gutil_memdup(NULL, vf_u64()), "absent memory is not duplicated");
        VF_NOLEAK(live);
        VF_END("data");
    }
}

void h_variant(void)
{
    VF_SPLIT(len, -1, MAXLEN) {
        const gint64 live = vf_live();
        Blk a = blk(len);
        GVariant* v = gutil_data_copy_as_variant(&a.d);
        const guint8* p;
        gsize n = 1, i;

        VF_CHECK(v != NULL, "a variant is created");
        VF_CHECK(g_variant_is_floating(v), "the reference is floating");
        VF_CHECK(g_variant_is_of_type(v, G_VARIANT_TYPE_BYTESTRING), "it is an array of bytes");
        g_variant_ref_sink(v);
        p = g_variant_get_fixed_array(v, &n, 1);
        VF_CHECK(n == a.d.size, "variant has the size of the block");
        for (i = 0; i < n; i++) {
            const guint8 x = a.mem[i];
            a.mem[i] = ~x;
            VF_CHECK(p[i] == x, "variant has a copy of the contents of the block");
        }
        g_free(a.mem);
        for (i = 0; i < n; i++) VF_CHECK(p[i] == p[i], "the copy is still there");
        g_variant_unref(v);
        VF_NOLEAK(live);
        VF_END("variant");
    }
}

void h_views(void)
{
    VF_SPLIT(len, 0, MAXLEN) {
        const gint64 live = vf_live();
        char* s = text(len);
        Byt b = byt(len);
        gsize n = 0;
        const guint8* p = g_bytes_get_data(b.b, &n);
        GUtilData d;
        GUtilRange r;

        memset(&d, 0xaa, sizeof(d));
        memset(&r, 0xaa, sizeof(r));
        VF_CHECK(gutil_data_from_string(&d, s) == &d, "view of a string");
        VF_CHECK(d.bytes == (guint8*)s && d.size == (gsize)len, "view is the string without terminator");
        VF_CHECK(gutil_strlen0(s) == (gsize)len, "length of the string");
        VF_CHECK(gutil_data_from_bytes(&d, b.b) == &d, "view of a byte object");
        VF_CHECK(d.bytes == p && d.size == n, "view is the contents");
        VF_CHECK(gutil_range_init_with_bytes(&r, b.b) == n, "range of a byte object");
        VF_CHECK(r.ptr == p && r.end == p + n, "range is the contents");
        VF_CHECK(gutil_data_from_string(&d, NULL) == &d && !d.bytes && !d.size, "absent string, empty view");
        memset(&d, 0xaa, sizeof(d));
        VF_CHECK(gutil_data_from_bytes(&d, NULL) == &d && !d.bytes && !d.size, "absent byte object, empty view");
        VF_CHECK(!gutil_range_init_with_bytes(&r, NULL) && !r.ptr && !r.end, "absent byte object, empty range");
        VF_CHECK(!gutil_data_from_string(NULL, s) && !gutil_data_from_bytes(NULL, b.b), "absent view");
        VF_CHECK(!gutil_range_init_with_bytes(NULL, NULL) && !gutil_range_init_with_bytes(NULL, b.b), "absent range");
        VF_CHECK(!gutil_strlen0(NULL), "absent string has no length");
        byt_done(&b);
        g_free(s);
        VF_NOLEAK(live);
        VF_END("views");
    }
}
