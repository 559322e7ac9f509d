/* C41: absent arguments. Everything else is arbitrary, pointers that must not
 * be followed included. */
#include "vf.h"
#include "gutil_ring.h"
#include "gutil_history.h"
#include "gutil_strv.h"
#include "gutil_objv.h"
#include "gutil_misc.h"
#include "gutil_datapack.h"

static void unexpected(gpointer p) { (void)p; VF_CHECK(0, "nothing is released"); }

void h_ring(void)
{
    const gint64 live = vf_live();
    const gint n = vf_int();
    gint size = vf_int();
    gpointer p = vf_ptr();

    VF_CHECK(!gutil_ring_ref(NULL), "no ring");
    gutil_ring_unref(NULL);
    gutil_ring_set_free_func(NULL, unexpected);
    gutil_ring_set_max_size(NULL, n);
    gutil_ring_clear(NULL);
    gutil_ring_compact(NULL);
    VF_CHECK(gutil_ring_max_size(NULL) == 0 && gutil_ring_size(NULL) == 0, "no ring has no elements");
    VF_CHECK(!gutil_ring_reserve(NULL, n) && !gutil_ring_can_put(NULL, n), "no ring has no room");
    VF_CHECK(!gutil_ring_put(NULL, p) && !gutil_ring_put_front(NULL, p), "nothing is put");
    VF_CHECK(!gutil_ring_get(NULL) && !gutil_ring_get_last(NULL), "nothing to get");
    VF_CHECK(gutil_ring_drop(NULL, n) == 0 && gutil_ring_drop_last(NULL, n) == 0, "nothing to drop");
    VF_CHECK(!gutil_ring_data_at(NULL, n), "nothing there");
    VF_CHECK(!gutil_ring_flatten(NULL, NULL), "nothing there");
    VF_CHECK(!gutil_ring_flatten(NULL, &size) && size == 0, "nothing there");
    VF_NOLEAK(live);
    VF_END("ring");
}

static gint64 no_clock(void) { VF_CHECK(0, "the clock isn't consulted"); return 0; }
void h_history(void)
{
    const gint64 live = vf_live();
    const int x = vf_int();

    VF_CHECK(!gutil_int_history_new_full(vf_int() | G_MININT, vf_i64(), no_clock), "no history");
    VF_CHECK(!gutil_int_history_ref(NULL), "no history");
    gutil_int_history_unref(NULL);
    gutil_int_history_clear(NULL);
    VF_CHECK(gutil_int_history_size(NULL) == 0 && gutil_int_history_interval(NULL) == 0, "no history is empty");
    VF_CHECK(gutil_int_history_median(NULL, x) == x, "default of the caller");
    VF_CHECK(gutil_int_history_add(NULL, x) == 0, "nothing is added");
    VF_NOLEAK(live);
    VF_END("history");
}

void h_strv(void)
{
    VF_SPLIT(n, -1, 1) {
        const gint64 live = vf_live();
        const char* s = vf_ptr();
        const int k = vf_int();
        const gboolean f = vf_int(), f2 = vf_int();
        GStrV* sv = NULL;
        GStrV* empty[1] = { NULL };
        static char item[] = "x";
        GStrV one[2] = { item, NULL };

        VF_CHECK(gutil_strv_length(NULL) == 0 && !gutil_strv_at(NULL, k) && !gutil_strv_last(NULL), "no vector is empty");
        VF_CHECK(gutil_strv_find(NULL, s) == -1 && gutil_strv_find_last(NULL, s) == -1 && !gutil_strv_contains(NULL, s), "nothing there");
        VF_CHECK(gutil_strv_find(NULL, NULL) == -1 && gutil_strv_find_last(NULL, NULL) == -1 && !gutil_strv_contains(NULL, NULL), "nothing there");
        VF_CHECK(!gutil_strv_remove_at(NULL, k, f) && !gutil_strv_remove(NULL, s, f2) && !gutil_strv_remove(NULL, NULL, f2) && !gutil_strv_remove_dups(NULL), "nothing to remove");
        VF_CHECK(gutil_strv_equal(NULL, NULL), "no vectors are equal");
        VF_CHECK(!gutil_strv_sort(NULL, f) && !gutil_strv_strip(NULL), "nothing to sort or strip");
        VF_CHECK(gutil_strv_bsearch(NULL, s, f) == -1 && gutil_strv_bsearch(NULL, NULL, f) == -1, "nothing there");
        VF_CHECK(!gutil_strv_add(NULL, NULL) && !gutil_strv_addv(NULL, NULL), "nothing is added");
        /* No string */
        if (n >= 0) sv = n ? one : (GStrV*) empty;
        VF_CHECK(gutil_strv_find(sv, NULL) == -1 && gutil_strv_find_last(sv, NULL) == -1 && !gutil_strv_contains(sv, NULL), "no string is not there");
        VF_CHECK(gutil_strv_remove(sv, NULL, f) == sv && gutil_strv_bsearch(sv, NULL, f) == -1, "no string is not there");
        VF_CHECK(gutil_strv_add(sv, NULL) == sv && gutil_strv_addv(sv, NULL, s, s) == sv, "nothing is added");
        VF_CHECK(gutil_strv_equal(sv, NULL) == (n < 1) && gutil_strv_equal(NULL, sv) == (n < 1), "no vector is equal to an empty one");
        if (n > 0) VF_CHECK(one[0] == item && !one[1] && item[0] == 'x', "vector is not changed");
        VF_NOLEAK(live);
        VF_END("strv");
    }
}

void h_objv(void)
{
    VF_SPLIT(n, -1, 1) {
        const gint64 live = vf_live();
        const gsize pos = vf_u64();
        const gboolean f = vf_int();
        gpointer any = vf_ptr();
        GObject* o = g_object_new(G_TYPE_OBJECT, NULL);
        GObject* v[2];
        GObject** ov = (n < 0) ? NULL : v;

        gutil_objv_free(gutil_objv_new(NULL)); /* Empty vector */
        gutil_objv_free(NULL);
        VF_CHECK(!gutil_objv_copy(NULL) && !gutil_objv_add(NULL, NULL) && !gutil_objv_insert(NULL, NULL, pos) && !gutil_objv_append(NULL, NULL), "nothing is added");
        VF_CHECK(!gutil_objv_remove(NULL, any, f) && !gutil_objv_remove(NULL, NULL, f) && !gutil_objv_remove_at(NULL, pos), "nothing to remove");
        VF_CHECK(!gutil_objv_at(NULL, pos) && !gutil_objv_first(NULL) && !gutil_objv_last(NULL), "nothing there");
        VF_CHECK(gutil_objv_find(NULL, any) == -1 && gutil_objv_find_last(NULL, any) == -1 && !gutil_objv_contains(NULL, any), "nothing there");
        VF_CHECK(gutil_objv_find(NULL, NULL) == -1 && gutil_objv_find_last(NULL, NULL) == -1 && !gutil_objv_contains(NULL, NULL), "nothing there");
        VF_CHECK(gutil_objv_equal(NULL, NULL), "no vectors are equal");
        /* No object */
        v[0] = (n > 0) ? o : NULL;
        v[1] = NULL;
        VF_CHECK(gutil_objv_find(ov, NULL) == -1 && gutil_objv_find_last(ov, NULL) == -1 && !gutil_objv_contains(ov, NULL), "no object is not there");
        VF_CHECK(gutil_objv_add(ov, NULL) == ov && gutil_objv_insert(ov, NULL, pos) == ov && gutil_objv_append(ov, NULL) == ov, "nothing is added");
        VF_CHECK(gutil_objv_remove(ov, NULL, f) == ov, "nothing is removed");
        VF_CHECK(!gutil_objv_equal(ov, NULL) == (n > 0) && !gutil_objv_equal(NULL, ov) == (n > 0), "no vector is equal to an empty one");
        VF_CHECK(v[0] == (n > 0 ? o : NULL) && !v[1] && o->ref_count == 1, "nothing changes");
        g_object_unref(o);
        VF_NOLEAK(live);
        VF_END("objv");
    }
}

void h_misc(void)
{
    VF_SPLIT(n, 0, 2) {
        const gint64 live = vf_live();
        const gssize len = (gssize) vf_u64();
        const gsize size = vf_u64();
        const guint len32 = vf_u32();
        const gboolean f = vf_int();
        const int count = vf_int();
        gpointer any = vf_ptr();
        guint zero = 0;
        gpointer none[1] = { NULL };
        GUtilData d, *dp;
        GUtilRange r;
        GBytes* b = g_bytes_new_static("abc", n);
        static const guint8 text[] = "abc";

        gutil_disconnect_handlers(NULL, any, count);
        gutil_disconnect_handlers(NULL, NULL, count);
        VF_CHECK(!gutil_object_ref(NULL), "no object");
        gutil_object_unref(NULL);
        VF_CHECK(!gutil_source_remove(0) && !gutil_source_clear(NULL) && !gutil_source_clear(&zero) && !zero, "no source is removed");

        VF_CHECK(!gutil_hex2bin(NULL, len, any), "nothing to decode");
        VF_CHECK(!gutil_hex2bytes(NULL, len), "nothing to decode");
        VF_CHECK(!gutil_data2hex(NULL, f), "nothing to encode");

        VF_CHECK(!gutil_data_from_string(NULL, any) && !gutil_data_from_bytes(NULL, any), "no block");
        d.bytes = any; d.size = size;
        VF_CHECK(gutil_data_from_string(&d, NULL) == &d && !d.bytes && !d.size, "block of nothing");
        d.bytes = any; d.size = size;
        VF_CHECK(gutil_data_from_bytes(&d, NULL) == &d && !d.bytes && !d.size, "block of nothing");
        VF_CHECK(!gutil_data_copy(NULL) && !gutil_data_copy_as_variant(NULL), "no copy of nothing");
        dp = gutil_data_new(NULL, len32 & 0xff);
        VF_CHECK(dp && !dp->bytes && !dp->size, "block of nothing");
        g_free(dp);

        VF_CHECK(!gutil_bytes_concat(NULL, any, any) && !gutil_bytes_concat(NULL, NULL), "nothing to concatenate");
        VF_CHECK(!gutil_bytes_xor(NULL, any) && !gutil_bytes_xor(any, NULL) && !gutil_bytes_xor(NULL, NULL), "nothing to combine");
        VF_CHECK(gutil_ptrv_length(NULL) == 0 && gutil_ptrv_is_empty(NULL) && gutil_ptrv_is_empty(none) && !gutil_ptrv_length(none), "no vector is empty");
        gutil_ptrv_free(NULL);
        VF_CHECK(!gutil_memdup(NULL, size) && !gutil_memdup(any, 0), "no copy of nothing");
        VF_CHECK(gutil_strlen0(NULL) == 0, "length of nothing");
        VF_CHECK(gutil_range_init_with_bytes(NULL, NULL) == 0, "no range");
        gutil_range_init_with_bytes(NULL, b);
        r.ptr = r.end = text;
        VF_CHECK(gutil_range_init_with_bytes(&r, NULL) == 0 && !r.ptr && !r.end, "range of nothing");
        g_bytes_unref(b);
        VF_NOLEAK(live);
        VF_END("misc");
    }
}

void h_datapack(void)
{
    gint64 i = vf_i64();
    guint64 u = vf_u64();
    guint8 out[12];
    GUtilRange r;
    GUtilData d;
    guint n;

    /* No bytes at all */
    d.bytes = out;
    d.size = 0;
    VF_CHECK(!gutil_signed_mbn_decode2(&d, &i) && !gutil_unsigned_mbn_decode2(&d, &u), "nothing to decode");
    VF_CHECK(!gutil_signed_mbn_decode2(&d, NULL) && !gutil_unsigned_mbn_decode2(&d, NULL), "nothing to decode");
    r.ptr = r.end = out;
    VF_CHECK(!gutil_signed_mbn_decode(&r, &i) && !gutil_unsigned_mbn_decode(&r, &u), "nothing to decode");
    VF_CHECK(!gutil_signed_mbn_decode(&r, NULL) && !gutil_unsigned_mbn_decode(&r, NULL) && !gutil_tlv_decode(&r, NULL), "nothing to decode");
    VF_CHECK(r.ptr == out && r.end == out, "the range is not changed");
    VF_CHECK(gutil_tlvs_decode(&d, NULL, NULL, vf_bool()) == 0, "nothing to decode");
    /* No payload, the same as an empty one */
    n = gutil_tlv_size(1, 0);
    VF_CHECK(n == 2 && gutil_tlv_encode(out, 1, NULL) == n && out[0] == 1 && out[1] == 0, "entry without contents");
    /* The same result whether the value is wanted or not */
    n = gutil_signed_mbn_encode(out, i);
    r.ptr = out;
    r.end = out + n;
    VF_CHECK(gutil_signed_mbn_decode(&r, NULL) && r.ptr == out + n, "value is skipped");
    n = gutil_unsigned_mbn_encode(out, u);
    r.ptr = out;
    r.end = out + n;
    VF_CHECK(gutil_unsigned_mbn_decode(&r, NULL) && r.ptr == out + n, "value is skipped");
    VF_END("datapack");
}
