#include "vf.h"
#include "gutil_datapack.h"
#include <limits.h>

/*
 * Reference: the value denoted by a sequence of 7-bit groups, most
 * significant first.
 */

/* Does a signed value fit into n 7-bit groups? */
static gboolean ref_signed_fits(gint64 v, unsigned n)
{
    if (n >= 10) {
        return TRUE;
    } else {
        const unsigned bits = 7 * n;
        const gint64 lim = ((gint64)1) << (bits - 1);
        return v >= -lim && v <= lim - 1;
    }
}

static gboolean ref_unsigned_fits(guint64 v, unsigned n)
{
    return n >= 10 || v < (((guint64)1) << (7 * n));
}

#define MAXBUF 12

/* C01 */
void h_signed_roundtrip(void)
{
    const gint64 v = vf_i64();
    guint8 buf[MAXBUF];
    guint8 fill = vf_u8();
    guint size, n, i;
    GUtilRange in;
    GUtilData data;
    gint64 out;

    for (i = 0; i < MAXBUF; i++) buf[i] = fill;
    size = gutil_signed_mbn_size(v);
    VF_CHECK(size >= 1 && size <= 10, "signed size is 1..10 bytes");
    VF_CHECK(ref_signed_fits(v, size), "announced size holds the value with its sign");
    VF_CHECK(size == 1 || !ref_signed_fits(v, size - 1), "announced size is the smallest possible");
    n = gutil_signed_mbn_encode(buf, v);
    VF_CHECK(n == size, "encoder writes the announced number of bytes");
    for (i = 0; i < MAXBUF; i++) {
        if (i + 1 < size) VF_CHECK(buf[i] & 0x80, "continuation bit set in all but the last byte");
        if (i + 1 == size) VF_CHECK(!(buf[i] & 0x80), "no continuation bit in the last byte");
        if (i >= size) VF_CHECK(buf[i] == fill, "nothing is written beyond the encoding");
    }
    in.ptr = buf;
    in.end = buf + MAXBUF;
    out = ~v;
    VF_CHECK(gutil_signed_mbn_decode(&in, &out), "own encoding decodes");
    VF_CHECK(out == v, "decoding gives the encoded integer");
    VF_CHECK(in.ptr == buf + size, "decoding consumes exactly the encoding");
    VF_CHECK(in.end == buf + MAXBUF, "end of the input is untouched");
    data.bytes = buf;
    data.size = size;
    out = ~v;
    VF_CHECK(gutil_signed_mbn_decode2(&data, &out) && out == v, "whole-block decoding gives the encoded integer");
    VF_END("signed roundtrip");
}

void h_signed_encode2(void)
{
    const gint64 v = vf_i64();
    const guint n = vf_range(1, 10);
    guint8 buf[MAXBUF];
    guint8 fill = vf_u8();
    guint i;
    GUtilRange in;
    gint64 out = ~v;

    VF_ASSUME(ref_signed_fits(v, n));
    for (i = 0; i < MAXBUF; i++) buf[i] = fill;
    VF_CHECK(gutil_signed_mbn_encode2(buf, v, n) == n, "explicit size is returned");
    for (i = 0; i < MAXBUF; i++) {
        if (i >= n) VF_CHECK(buf[i] == fill, "nothing is written beyond the requested size");
    }
    in.ptr = buf;
    in.end = buf + MAXBUF;
    VF_CHECK(gutil_signed_mbn_decode(&in, &out), "explicitly sized encoding decodes");
    VF_CHECK(out == v, "explicitly sized encoding decodes to the same integer");
    VF_CHECK(in.ptr == buf + n, "decoding consumes exactly the requested size");
    VF_END("signed encode2");
}

/* C02 */
void h_unsigned_roundtrip(void)
{
    const guint64 v = vf_u64();
    guint8 buf[MAXBUF];
    guint8 fill = vf_u8();
    guint size, n, i;
    GUtilRange in;
    GUtilData data;
    guint64 out;

    for (i = 0; i < MAXBUF; i++) buf[i] = fill;
    size = gutil_unsigned_mbn_size(v);
    VF_CHECK(size >= 1 && size <= 10, "unsigned size is 1..10 bytes");
    VF_CHECK(ref_unsigned_fits(v, size), "announced size holds the value");
    VF_CHECK(size == 1 || !ref_unsigned_fits(v, size - 1), "announced size is the smallest possible");
    n = gutil_unsigned_mbn_encode(buf, v);
    VF_CHECK(n == size, "encoder writes the announced number of bytes");
    for (i = 0; i < MAXBUF; i++) {
        if (i + 1 < size) VF_CHECK(buf[i] & 0x80, "continuation bit set in all but the last byte");
        if (i + 1 == size) VF_CHECK(!(buf[i] & 0x80), "no continuation bit in the last byte");
        if (i >= size) VF_CHECK(buf[i] == fill, "nothing is written beyond the encoding");
    }
    in.ptr = buf;
    in.end = buf + MAXBUF;
    out = ~v;
    VF_CHECK(gutil_unsigned_mbn_decode(&in, &out), "own encoding decodes");
    VF_CHECK(out == v, "decoding gives the encoded integer");
    VF_CHECK(in.ptr == buf + size, "decoding consumes exactly the encoding");
    data.bytes = buf;
    data.size = size;
    out = ~v;
    VF_CHECK(gutil_unsigned_mbn_decode2(&data, &out) && out == v, "whole-block decoding gives the encoded integer");
    VF_END("unsigned roundtrip");
}

void h_unsigned_encode2(void)
{
    const guint64 v = vf_u64();
    const guint n = vf_range(1, 10);
    guint8 buf[MAXBUF];
    guint8 fill = vf_u8();
    guint i;
    GUtilRange in;
    guint64 out = ~v;

    VF_ASSUME(ref_unsigned_fits(v, n));
    for (i = 0; i < MAXBUF; i++) buf[i] = fill;
    VF_CHECK(gutil_unsigned_mbn_encode2(buf, v, n) == n, "explicit size is returned");
    for (i = 0; i < MAXBUF; i++) {
        if (i >= n) VF_CHECK(buf[i] == fill, "nothing is written beyond the requested size");
    }
    in.ptr = buf;
    in.end = buf + MAXBUF;
    VF_CHECK(gutil_unsigned_mbn_decode(&in, &out), "explicitly sized encoding decodes");
    VF_CHECK(out == v, "explicitly sized encoding decodes to the same integer");
    VF_CHECK(in.ptr == buf + n, "decoding consumes exactly the requested size");
    VF_END("unsigned encode2");
}

/* C03: arbitrary bytes. The reference decides acceptance by the definition:
 * a terminated sequence of at most ten groups, value fits. */
static guint ref_mbn_len(const guint8* p, guint len)
{
    guint i;
    for (i = 0; i < len && i < 10; i++) {
        if (!(p[i] & 0x80)) return i + 1;
    }
    return 0;
}

static guint ref_decode_unsigned(const guint8* p, guint len, guint64* out)
{
    const guint n = ref_mbn_len(p, len);
    guint64 v = 0;
    guint i;

    if (!n || (n == 10 && (p[0] & 0x7e))) return 0;
    for (i = 0; i < n; i++) v = (v << 7) | (p[i] & 0x7f);
    *out = v;
    return n;
}

static guint ref_decode_signed(const guint8* p, guint len, gint64* out)
{
    const guint n = ref_mbn_len(p, len);
    guint64 v;
    guint i;

    if (!n) return 0;
    /* All 70 - 63 = 7 top bits of a ten byte sequence are copies of the sign */
    if (n == 10 && (p[0] & 0x7f) != 0 && (p[0] & 0x7f) != 0x7f) return 0;
    v = (p[0] & 0x40) ? ~(guint64)0 : 0;
    for (i = 0; i < n; i++) v = (v << 7) | (p[i] & 0x7f);
    *out = (gint64) v;
    return n;
}

void h_decode_signed(void)
{
    VF_SPLIT(len, 0, MAXLEN) {
        guint8* buf = g_malloc(len ? len : 1);
        guint i, n;
        GUtilRange in;
        GUtilData data;
        gint64 ref = 0, out;
        const gint64 old = vf_i64();
        gboolean ok;

        for (i = 0; i < (guint)len; i++) buf[i] = vf_u8();
        n = ref_decode_signed(buf, len, &ref);
        in.ptr = buf;
        in.end = buf + len;
        out = old;
        ok = gutil_signed_mbn_decode(&in, &out);
        VF_CHECK(!ok == !n, "signed decoder accepts exactly the well-formed encodings");
        VF_CHECK(in.ptr == buf + n, "input advances by the encoding, or not at all");
        VF_CHECK(in.end == buf + len, "end of the input is untouched");
        VF_CHECK(out == (n ? ref : old), "signed value is the denoted one, untouched on failure");
        in.ptr = buf;
        ok = gutil_signed_mbn_decode(&in, NULL);
        VF_CHECK(!ok == !n && in.ptr == buf + n, "output may be omitted");
        data.bytes = buf;
        data.size = len;
        out = old;
        ok = gutil_signed_mbn_decode2(&data, &out);
        VF_CHECK(!ok == !(n && n == (guint)len), "whole-block variant needs the whole block");
        VF_CHECK(out == (ok ? ref : old), "whole-block value is the denoted one, untouched on failure");
        ok = gutil_signed_mbn_decode2(&data, NULL);
        VF_CHECK(!ok == !(n && n == (guint)len), "whole-block output may be omitted");
        g_free(buf);
        VF_END("signed decode");
    }
}

void h_decode_unsigned(void)
{
    VF_SPLIT(len, 0, MAXLEN) {
        guint8* buf = g_malloc(len ? len : 1);
        guint i, n;
        GUtilRange in;
        GUtilData data;
        guint64 ref = 0, out;
        const guint64 old = vf_u64();
        gboolean ok;

        for (i = 0; i < (guint)len; i++) buf[i] = vf_u8();
        n = ref_decode_unsigned(buf, len, &ref);
        in.ptr = buf;
        in.end = buf + len;
        out = old;
        ok = gutil_unsigned_mbn_decode(&in, &out);
        VF_CHECK(!ok == !n, "unsigned decoder accepts exactly the well-formed encodings");
        VF_CHECK(in.ptr == buf + n, "input advances by the encoding, or not at all");
        VF_CHECK(in.end == buf + len, "end of the input is untouched");
        VF_CHECK(out == (n ? ref : old), "unsigned value is the denoted one, untouched on failure");
        in.ptr = buf;
        ok = gutil_unsigned_mbn_decode(&in, NULL);
        VF_CHECK(!ok == !n && in.ptr == buf + n, "output may be omitted");
        data.bytes = buf;
        data.size = len;
        out = old;
        ok = gutil_unsigned_mbn_decode2(&data, &out);
        VF_CHECK(!ok == !(n && n == (guint)len), "whole-block variant needs the whole block");
        VF_CHECK(out == (ok ? ref : old), "whole-block value is the denoted one, untouched on failure");
        ok = gutil_unsigned_mbn_decode2(&data, NULL);
        VF_CHECK(!ok == !(n && n == (guint)len), "whole-block output may be omitted");
        g_free(buf);
        VF_END("unsigned decode");
    }
}

/* C04 */
static guint ref_unsigned_size(guint64 v)
{
    guint n = 1;
    while (n < 10 && (v >> (7 * n))) n++;
    return n;
}

void h_tlv_size(void)
{
    const guint tag = vf_u32();
    const gsize len = vf_u32();
    const gsize total = (gsize)ref_unsigned_size(tag) + ref_unsigned_size(len) + len;

    VF_ASSUME(total <= G_MAXUINT);
    VF_CHECK(gutil_tlv_size(tag, len) == total, "announced size is tag, length and data");
    VF_END("tlv size");
}

#define TLV_BUF (5 + 2 + MAXVAL + 1)
void h_tlv_roundtrip(void)
{
    VF_SPLIT(len, 0, MAXVAL) {
        guint8* buf = g_malloc(TLV_BUF);
        guint8* v = g_malloc(len ? len : 1);
        const guint8 fill = vf_u8();
        const guint tag = vf_u32();
        const gboolean omit = vf_bool();
        guint i;
        gsize n;
        GUtilData d, out;
        GUtilRange in;

        VF_ASSUME(tag && tag <= INT_MAX);
        VF_ASSUME(!omit || !len);
        for (i = 0; i < TLV_BUF; i++) buf[i] = fill;
        for (i = 0; i < (guint)len; i++) v[i] = vf_u8();
        d.bytes = len ? v : NULL;
        d.size = len;
        n = gutil_tlv_encode(buf, tag, omit ? NULL : &d);
        VF_CHECK(n == gutil_tlv_size(tag, len), "entry takes the announced number of bytes");
        VF_CHECK(n == (gsize)ref_unsigned_size(tag) + ref_unsigned_size(len) + len, "entry has the documented size");
        for (i = 0; i < TLV_BUF; i++) if (i >= n) VF_CHECK(buf[i] == fill, "nothing is written beyond the entry");
        in.ptr = buf;
        in.end = buf + n;
        VF_CHECK(gutil_tlv_decode(&in, &out) == tag, "tag is decoded");
        VF_CHECK(out.size == (gsize)len, "length is decoded");
        VF_CHECK(in.ptr == buf + n, "all input is consumed");
        VF_CHECK(!len || out.bytes == buf + (n - len), "value is a view of the input");
        for (i = 0; i < (guint)len; i++) VF_CHECK(out.bytes[i] == v[i], "value is decoded");
        g_free(v);
        g_free(buf);
        VF_END("tlv roundtrip");
    }
}

/* Longer values: contents are compared at an arbitrary position */
#ifndef SIZES
#define SIZES 127
#endif
void h_tlv_long(void)
{
    static const gsize sizes[] = { SIZES };
    VF_SPLIT(k, 0, (int) G_N_ELEMENTS(sizes) - 1) VF_SPLIT(t, 0, 1) {
        const gsize len = sizes[k];
        const gsize total = len + ref_unsigned_size(len) + 2 - t;
        guint8* buf = g_malloc(total);
        guint8* v = g_malloc(len);
        const gsize any = vf_u32();
        const guint8 x = vf_u8();
        const guint tag = t ? 127 : 128;
        GUtilData d, out;
        GUtilRange in;
        gsize n;

        VF_ASSUME(any < len);
        v[0] = v[len - 1] = v[len / 2] = 0;
        v[any] = x;
        d.bytes = v;
        d.size = len;
        VF_CHECK(gutil_tlv_size(tag, len) == total, "announced size is tag, length and data");
        n = gutil_tlv_encode(buf, tag, &d);
        VF_CHECK(n == total, "entry takes the announced number of bytes");
        in.ptr = buf;
        in.end = buf + total;
        VF_CHECK(gutil_tlv_decode(&in, &out) == tag, "tag is decoded");
        VF_CHECK(out.size == len, "length is decoded");
        VF_CHECK(in.ptr == in.end, "all input is consumed");
        VF_CHECK(out.bytes == buf + (total - len), "value is a view of the input");
        VF_CHECK(buf[total - len + any] == x, "value is decoded");
        g_free(v);
        g_free(buf);
        VF_END("tlv long");
    }
}

/* Several entries, one after another */
#define SEQ_BUF (5 + 2 + MAXVAL + 5 + 2 + MAXVAL2 + 1)
void h_tlv_sequence(void)
{
    VF_SPLIT(t, 0, 5) VF_SPLIT(len1, 0, MAXVAL) VF_SPLIT(len2, 0, MAXVAL2) {
        static const guint tags[] = { 1, 127, 128, 16383, 16384, INT_MAX };
        guint8* buf = g_malloc(SEQ_BUF);
        guint8 v1[MAXVAL + 1], v2[MAXVAL2 + 1];
        const guint tag1 = tags[t], tag2 = MAXTAG2 ? vf_u32() : tags[5 - t];
        guint i;
        gsize n1, n2;
        GUtilData d1, d2, out;
        GUtilRange in;

        VF_ASSUME(!MAXTAG2 || (tag2 && tag2 <= MAXTAG2));
        for (i = 0; i < (guint)len1; i++) v1[i] = vf_u8();
        for (i = 0; i < (guint)len2; i++) v2[i] = vf_u8();
        d1.bytes = v1;
        d1.size = len1;
        d2.bytes = v2;
        d2.size = len2;
        n1 = gutil_tlv_encode(buf, tag1, &d1);
        n2 = gutil_tlv_encode(buf + n1, tag2, &d2);
        in.ptr = buf;
        in.end = buf + (n1 + n2);
        VF_CHECK(gutil_tlv_decode(&in, &out) == tag1, "first tag is decoded");
        VF_CHECK(out.size == (gsize)len1, "first length is decoded");
        VF_CHECK(in.ptr == buf + n1, "input is right after the first entry");
        for (i = 0; i < (guint)len1; i++) VF_CHECK(out.bytes[i] == v1[i], "first value is decoded");
        VF_CHECK(gutil_tlv_decode(&in, &out) == tag2, "second tag is decoded");
        VF_CHECK(out.size == (gsize)len2, "second length is decoded");
        for (i = 0; i < (guint)len2; i++) VF_CHECK(out.bytes[i] == v2[i], "second value is decoded");
        VF_CHECK(in.ptr == in.end, "all input is consumed");
        VF_CHECK(!gutil_tlv_decode(&in, &out), "nothing is left");
        in.ptr = buf;
        VF_CHECK(gutil_tlv_decode(&in, NULL) == tag1 && in.ptr == buf + n1, "value may be omitted");
        g_free(buf);
        VF_END("tlv sequence");
    }
}

/* C05 */
static guint ref_tlv(const guint8* p, guint len, guint* tag, gsize* off, gsize* vlen)
{
    guint64 t, l;
    guint n = ref_decode_unsigned(p, len, &t), k;

    if (!n || !t || t > INT_MAX) return 0;
    k = ref_decode_unsigned(p + n, len - n, &l);
    if (!k || l > (guint64)(len - n - k)) return 0;
    *tag = (guint) t;
    *off = n + k;
    *vlen = (gsize) l;
    return n + k + (guint) l;
}

void h_tlv_decode(void)
{
    VF_SPLIT(len, MINLEN, MAXLEN) {
        guint8* buf = g_malloc(len ? len : 1);
        guint i, n, tag = 0, res;
        gsize off = 0, vlen = 0;
        GUtilRange in;
        GUtilData val;
        guint8 dummy = 0;

        for (i = 0; i < (guint)len; i++) buf[i] = vf_u8();
        n = ref_tlv(buf, len, &tag, &off, &vlen);
        in.ptr = buf;
        in.end = buf + len;
        val.bytes = &dummy;
        val.size = 12345;
        res = gutil_tlv_decode(&in, &val);
        VF_CHECK(!res == !n, "an entry is decoded exactly when there is a well-formed one");
        if (n) {
            VF_CHECK(res == tag, "tag is the one in the input");
            VF_CHECK(in.ptr == buf + n, "input advances to the end of the value");
            VF_CHECK(val.size == vlen, "length is the one in the input");
            VF_CHECK(val.bytes == buf + off, "value lies in the input, after the length");
        } else {
            VF_CHECK(in.ptr == buf, "input is unchanged on failure");
            VF_CHECK(val.bytes == &dummy && val.size == 12345, "output is unchanged on failure");
        }
        VF_CHECK(in.end == buf + len, "end of the input is untouched");
        in.ptr = buf;
        res = gutil_tlv_decode(&in, NULL);
        VF_CHECK(res == (n ? tag : 0) && in.ptr == buf + n, "value may be omitted");
        g_free(buf);
        VF_END("tlv decode");
    }
}

/* C06 */
void h_tlvs_decode(void)
{
    VF_SPLIT(len, MINLEN, MAXLEN) {
        guint8* buf = g_malloc(len ? len : 1);
        const guint ntags = NTAGS;
        const gboolean skip = vf_bool();
        const gboolean have_vals = vf_bool();
        guint tags[NTAGS + 1];
        GUtilData vals[NTAGS + 1], ref[NTAGS + 1];
        GUtilData in;
        guint8 dummy = 0;
        guint i, j, pos = 0;
        int mask = 0, err = 0, res;

        for (i = 0; i < ntags; i++) {
            tags[i] = vf_u32();
            VF_ASSUME(tags[i] && tags[i] <= INT_MAX);
            for (j = 0; j < i; j++) VF_ASSUME(tags[j] != tags[i]);
        }
        tags[ntags] = 0;
        for (i = 0; i < ntags + 1; i++) {
            vals[i].bytes = &dummy;
            vals[i].size = 777;
            ref[i].bytes = NULL;
            ref[i].size = 0;
        }
        for (i = 0; i < (guint)len; i++) buf[i] = vf_u8();

        /* Reference */
        for (j = 0; j < MAXLEN; j++) {
            if (!err && pos < (guint)len) {
                guint tag = 0;
                gsize off = 0, vlen = 0;
                const guint n = ref_tlv(buf + pos, len - pos, &tag, &off, &vlen);
                if (!n) {
                    err = GUTIL_TLVS_DECODE_ERROR;
                } else {
                    gboolean known = FALSE;
                    for (i = 0; i < ntags; i++) {
                        if (tags[i] == tag) {
                            known = TRUE;
                            if (mask & (1 << i)) {
                                err = GUTIL_TLVS_DECODE_DUPLICATE_TAG;
                            } else {
                                mask |= (1 << i);
                                ref[i].bytes = buf + (pos + off);
                                ref[i].size = vlen;
                            }
                        }
                    }
                    if (!known && !skip) err = GUTIL_TLVS_DECODE_UNKNOWN_TAG;
                    pos += n;
                }
            }
        }

        in.bytes = buf;
        in.size = len;
        res = gutil_tlvs_decode(&in, tags, have_vals ? vals : NULL, skip ?
            GUTIL_TLVS_DECODE_FLAG_SKIP_UNKNOWN_TAGS : GUTIL_TLVS_DECODE_NO_FLAGS);
        VF_CHECK(res == (err ? err : mask), "the mask of present tags or the first error is reported");
        if (have_vals && !err) {
            for (i = 0; i < ntags; i++) {
                VF_CHECK(vals[i].size == ref[i].size, "value lengths are reported, absent ones are empty");
                VF_CHECK(vals[i].bytes == ref[i].bytes, "values are views of the block, absent ones are empty");
            }
        }
        VF_CHECK(vals[ntags].bytes == &dummy && vals[ntags].size == 777, "nothing is stored past the tag list");
        if (!have_vals) for (i = 0; i < ntags; i++)
            VF_CHECK(vals[i].bytes == &dummy, "omitted output is not touched");
        g_free(buf);
        if (len >= 2 && !err) VF_REACH("success");
        VF_END("tlvs decode");
    }
}

/* C06: only the first 31 tags of a longer list are considered */
#define MANY 34
void h_tlvs_many(void)
{
    VF_SPLIT(t, 1, MANY + 2) {
        guint tags[MANY + 1];
        GUtilData vals[MANY + 1];
        guint8 buf[2];
        GUtilData in;
        guint i;
        int res;
        const gboolean skip = vf_bool();
        const gboolean have_vals = vf_bool();

        for (i = 0; i < MANY; i++) tags[i] = i + 1;
        tags[MANY] = 0;
        for (i = 0; i <= MANY; i++) { vals[i].bytes = buf; vals[i].size = 777; }
        buf[0] = (guint8) t;
        buf[1] = 0;
        in.bytes = buf;
        in.size = 2;
        res = gutil_tlvs_decode(&in, tags, have_vals ? vals : NULL, skip ?
            GUTIL_TLVS_DECODE_FLAG_SKIP_UNKNOWN_TAGS : GUTIL_TLVS_DECODE_NO_FLAGS);
        if (t <= 31) {
            VF_CHECK(res == (int)(1u << (t - 1)), "each of the first 31 tags has its own bit");
            VF_CHECK(res > 0, "a mask is never negative");
            if (have_vals) VF_CHECK(vals[t - 1].bytes == buf + 2 && !vals[t - 1].size, "value of the tag is stored at its index");
        } else {
            VF_CHECK(res == (skip ? 0 : GUTIL_TLVS_DECODE_UNKNOWN_TAG), "tags after the first 31 are not considered");
        }
        if (have_vals) {
            for (i = 0; i < 31; i++) if (i + 1 != (guint)t)
                VF_CHECK(!vals[i].bytes && !vals[i].size, "absent values are empty");
            VF_CHECK(vals[MANY].size == 777, "nothing is stored past the tag list");
        }
        VF_END("tlvs many");
    }
}

/* C06: longer sequences of entries of a concrete layout, any one-byte tags */
#ifndef ENTRIES
#define ENTRIES 3
#endif
void h_tlvs_seq(void)
{
    VF_SPLIT(lens, 0, (1 << ENTRIES) - 1) {
        guint8 buf[ENTRIES * 3];
        guint tags[3];
        GUtilData vals[3], in;
        guint i, k, pos = 0, off[ENTRIES], vlen[ENTRIES];
        int err = 0, mask = 0, res;
        const guint8* ptr[2];
        guint sz[2];
        const gboolean skip = vf_bool();

        for (i = 0; i < 2; i++) {
            tags[i] = vf_u8();
            VF_ASSUME(tags[i] && tags[i] < 0x80);
            ptr[i] = NULL;
            sz[i] = 0;
        }
        tags[2] = 0;
        VF_ASSUME(tags[0] != tags[1]);
        for (i = 0; i < ENTRIES; i++) {
            off[i] = pos;
            vlen[i] = (lens >> i) & 1;
            buf[pos] = vf_u8();
            VF_ASSUME(buf[pos] && buf[pos] < 0x80);
            buf[pos + 1] = vlen[i];
            if (vlen[i]) buf[pos + 2] = vf_u8();
            pos += 2 + vlen[i];
        }
        for (i = 0; i < ENTRIES; i++) if (!err) {
            gboolean known = FALSE;
            for (k = 0; k < 2; k++) if (buf[off[i]] == tags[k]) {
                known = TRUE;
                if (mask & (1 << k)) {
                    err = GUTIL_TLVS_DECODE_DUPLICATE_TAG;
                } else {
                    mask |= 1 << k;
                    ptr[k] = buf + (off[i] + 2);
                    sz[k] = vlen[i];
                }
            }
            if (!known && !skip) err = GUTIL_TLVS_DECODE_UNKNOWN_TAG;
        }
        in.bytes = buf;
        in.size = pos;
        res = gutil_tlvs_decode(&in, tags, vals, skip ?
            GUTIL_TLVS_DECODE_FLAG_SKIP_UNKNOWN_TAGS : GUTIL_TLVS_DECODE_NO_FLAGS);
        VF_CHECK(res == (err ? err : mask), "the mask of present tags or the first error is reported");
        if (!err) for (k = 0; k < 2; k++)
            VF_CHECK(vals[k].bytes == ptr[k] && vals[k].size == sz[k], "values are views of the block, absent ones are empty");
        VF_END("tlvs seq");
    }
}
