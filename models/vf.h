/*
 * Verification harness interface. The same harness source is compiled twice:
 *
 *   VF_CBMC     goto-cc; inputs are nondeterministic (symbolic) values and
 *               VF_CHECK is an assertion decided by the solver.
 *   otherwise   a native program; inputs come from a recorded list (a solver
 *               counterexample, a solver witness or a random sample), the
 *               code under test is linked with the real GLib, and VF_CHECK
 *               ends the run.
 *
 * Harnesses use nothing but the public API of the library.
 */
#ifndef VF_H
#define VF_H

#include <glib.h>
#include <glib-object.h>
#include <stdint.h>
#include <string.h>

/* Raw recorded inputs */
uint64_t vf_nd(void);
gint64 vf_live(void);           /* live heap blocks (balance) */

#ifdef VF_CBMC

#define VF_ASSUME(c)     __CPROVER_assume(c)
#define VF_CHECK(c,msg)  __CPROVER_assert(!!(c), "vf: " msg)
#define VF_REACH(msg)    __CPROVER_assert(0, "reach: " msg)
#include <stdlib.h>
#define VF_NOLEAK(live0) VF_CHECK(vf_live() == (live0), "no memory is leaked or over-released")
#define VF_STOP()        __CPROVER_assume(0)
/* The string at s is known to have (constant) length n: keeps sizes derived
 * from strlen() constant. Asserted by the model of strlen(). */
/* Zero-initialized block of a known type (models only) */
void* vf_counted(void* p);
#define VF_NEW(type) ((type*) vf_counted(calloc(1, sizeof(type))))
void vf_string(const char* s, gsize n);
void vf_string_gone(const char* s);
#define VF_STRING(s,n)   vf_string(s,n)
#define VF_STRING_GONE(s) vf_string_gone(s)

#else

#include <stdio.h>
#include <stdlib.h>

void vf_native_assume(int ok, const char* expr, const char* file, int line);
void vf_native_check(int ok, const char* msg, const char* file, int line);
void vf_native_reach(const char* msg);
#define VF_ASSUME(c)     vf_native_assume(!!(c), #c, __FILE__, __LINE__)
#define VF_CHECK(c,msg)  vf_native_check(!!(c), msg, __FILE__, __LINE__)
#define VF_REACH(msg)    vf_native_reach(msg)
#define VF_NOLEAK(live0) ((void)(live0)) /* judged by the native driver */
#define VF_STOP()        ((void)0)
#define VF_STRING(s,n)   ((void)0)
#define VF_STRING_GONE(s) ((void)0)

#endif

/* End of a scenario: must be reachable, and nothing follows it */
#define VF_END(msg) do { VF_REACH(msg); VF_STOP(); } while (0)

/* A symbolic choice whose alternatives are encoded one after another, each
 * with the chosen value as a constant. Everything that depends on the value
 * goes into the statement that follows and ends with VF_END. */
#define VF_SPLIT(var, lo, hi) \
    for (int var##_sel = (int)(lo) + (int) vf_range(0, (hi) - (lo)), var = (int)(lo); \
         var <= (int)(hi); var++) if (var##_sel == var)

/* Typed inputs */
static inline uint8_t vf_u8(void) { return (uint8_t) vf_nd(); }
static inline uint16_t vf_u16(void) { return (uint16_t) vf_nd(); }
static inline uint32_t vf_u32(void) { return (uint32_t) vf_nd(); }
static inline uint64_t vf_u64(void) { return vf_nd(); }
static inline int vf_int(void) { return (int)(uint32_t) vf_nd(); }
static inline gint64 vf_i64(void) { return (gint64) vf_nd(); }
static inline gboolean vf_bool(void) { return (gboolean)(vf_nd() & 1); }
static inline gpointer vf_ptr(void) { return (gpointer)(uintptr_t) vf_nd(); }
/* Inclusive range, 0 <= lo */
static inline unsigned vf_range(unsigned lo, unsigned hi)
{
    const uint32_t v = (uint32_t) vf_nd();
    VF_ASSUME(v >= lo && v <= hi);
    return v;
}

#endif /* VF_H */
