/* Put in front of library sources: each atomic operation becomes a function
 * of the harness, where another holder of references may get to run. */
#ifndef VF_SWITCH_H
#define VF_SWITCH_H
#include <glib.h>
void vf_switch(void);
static inline int vf_atomic_add(gint* p, gint v) { int old; vf_switch(); old = *p; *p = old + v; vf_switch(); return old; }
static inline int vf_atomic_get(const gint* p) { int v; vf_switch(); v = *p; vf_switch(); return v; }
static inline void vf_atomic_set(gint* p, gint v) { vf_switch(); *p = v; vf_switch(); }
static inline gboolean vf_atomic_cas(gint* p, gint o, gint n)
{
    gboolean ok;
    vf_switch();
    ok = (*p == o);
    if (ok) *p = n;
    vf_switch();
    return ok;
}
#undef g_atomic_int_inc
#undef g_atomic_int_dec_and_test
#undef g_atomic_int_add
#undef g_atomic_int_get
#undef g_atomic_int_set
#undef g_atomic_int_compare_and_exchange
#define g_atomic_int_inc(p) ((void)vf_atomic_add((gint*)(p), 1))
#define g_atomic_int_dec_and_test(p) (vf_atomic_add((gint*)(p), -1) == 1)
#define g_atomic_int_add(p,v) vf_atomic_add((gint*)(p), v)
#define g_atomic_int_get(p) vf_atomic_get((const gint*)(p))
#define g_atomic_int_set(p,v) vf_atomic_set((gint*)(p), v)
#define g_atomic_int_compare_and_exchange(p,o,n) vf_atomic_cas((gint*)(p), o, n)
#define g_atomic_ref_count_inc(p) ((void)vf_atomic_add((gint*)(p), 1))
#define g_atomic_ref_count_dec(p) (vf_atomic_add((gint*)(p), -1) == 1)
#endif
