/* Two programs run as coroutines over the library, which is compiled with
 * -fsanitize=thread for the hooks that precede every memory access and stand
 * for every atomic operation (the sanitizer's runtime is not used). A hook is
 * where the other one may be switched to; every schedule with at most
 * PREEMPTIONS switches of this kind is run, each in a process of its own. */
#define _GNU_SOURCE
#include <glib.h>
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#define PREEMPTIONS 3
#define MAXPOINTS 400

int conc_freed;
static char* block;
static gsize block_size;
static int active, cur, finished[2], points, preempt[PREEMPTIONS + 1];
static ucontext_t mainctx, ctx[2];
static char stack[2][1 << 18];
static void (*fn[2])(void);

static void fail(const char* what) { fprintf(stderr, "CHECK FAILED: %s\n", what); _exit(66); }

static void switch_point(void)
{
    if (active) {
        int i, p = points++;
        if (p >= MAXPOINTS) _exit(77);
        for (i = 0; i < PREEMPTIONS; i++) {
            if (preempt[i] == p && !finished[!cur]) {
                int me = cur;
                cur = !cur;
                swapcontext(ctx + me, ctx + cur);
                return;
            }
        }
    }
}
static void access_point(void* p)
{
    switch_point();
    if (active && conc_freed && (char*)p >= block && (char*)p < block + block_size)
        fail("released object is not used");
}
static void run_one(int i)
{
    fn[i]();
    finished[i] = 1;
    if (!finished[!i]) { cur = !i; setcontext(ctx + cur); }
    setcontext(&mainctx);
}

/* Returns in every child with that schedule having run; the parent exits */
void conc_run(void* obj, gsize size, void (*t1)(void), void (*t2)(void))
{
    int total = -1, a, b, c;
    block = obj; block_size = size;
    fn[0] = t1; fn[1] = t2;
    /* The parent goes through the schedules; points of a run are at most the total */
    for (a = -1; a < (total < 0 ? 0 : total); a++) {
        for (b = a; b < total || b == a; b++) {
            for (c = b; c < total || c == b; c++) {
                int st, fd[2], n = 0;
                pid_t pid;
                if ((b == a && c > b) || (a < 0 && (b > a || c > a))) break;
                if (pipe(fd)) _exit(77);
                pid = fork();
                if (!pid) {
                    int first;
                    preempt[0] = a; preempt[1] = b > a ? b : -1; preempt[2] = c > b ? c : -1;
                    for (first = 0; first < 2; first++) {
                        getcontext(ctx + first);
                        ctx[first].uc_stack.ss_sp = stack[first];
                        ctx[first].uc_stack.ss_size = sizeof(stack[first]);
                        ctx[first].uc_link = NULL;
                        makecontext(ctx + first, (void (*)(void))run_one, 1, first);
                    }
                    cur = 0; active = 1;
                    swapcontext(&mainctx, ctx);
                    active = 0;
                    if (write(fd[1], &points, sizeof(points)) < 0) _exit(77);
                    return;
                }
                close(fd[1]);
                if (read(fd[0], &n, sizeof(n)) == sizeof(n) && n > total) total = n;
                close(fd[0]);
                waitpid(pid, &st, 0);
                if (!WIFEXITED(st) || WEXITSTATUS(st)) {
                    fprintf(stderr, "switches before points %d %d %d: status 0x%x\n", a, b > a ? b : -1, c > b ? c : -1, st);
                    _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 66);
                }
            }
        }
    }
    _exit(0);
}

/* Releases of the object are counted, it's kept for the accesses to it to be seen */
static int is_block(void* p)
{
    if (p && p == block) {
        switch_point();
        conc_freed++;
        return 1;
    }
    return 0;
}
#define REAL(name, type) static type real; if (!real) real = (type)dlsym(RTLD_NEXT, name)
#undef g_free
#undef g_free_sized
#undef g_slice_free1
typedef void (*free_fn)(gpointer);
typedef void (*sized_fn)(gpointer, size_t);
typedef void (*slice_fn)(gsize, gpointer);
void g_free(gpointer p) { if (!is_block(p)) { REAL("g_free", free_fn); real(p); } }
void g_free_sized(gpointer p, size_t n) { if (!is_block(p)) { REAL("g_free_sized", sized_fn); real(p, n); } }
void g_slice_free1(gsize n, gpointer p) { if (!is_block(p)) { REAL("g_slice_free1", slice_fn); real(n, p); } }

/* Hooks of the instrumentation */
void __tsan_init(void) {}
void __tsan_func_entry(void* pc) {}
void __tsan_func_exit(void) {}
#define HOOK(n) \
    void __tsan_read##n(void* p) { access_point(p); } \
    void __tsan_write##n(void* p) { access_point(p); } \
    void __tsan_unaligned_read##n(void* p) { access_point(p); } \
    void __tsan_unaligned_write##n(void* p) { access_point(p); } \
    void __tsan_volatile_read##n(void* p) { access_point(p); } \
    void __tsan_volatile_write##n(void* p) { access_point(p); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
void __tsan_read_range(void* p, unsigned long n) { access_point(p); }
void __tsan_write_range(void* p, unsigned long n) { access_point(p); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { access_point((void*)s); return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { access_point(d); return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { access_point((void*)s); return memmove(d, s, n); }
void __tsan_vptr_update(void* p, void* v) {}
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { access_point((void*)p); return *p; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { access_point((void*)p); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { T o; access_point((void*)p); o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { T o; access_point((void*)p); o = *p; *p = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { T o; access_point((void*)p); o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { T o; access_point((void*)p); o = *p; *p = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { T o; access_point((void*)p); o = *p; *p = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { T o; access_point((void*)p); o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) \
    { access_point((void*)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) \
    { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) \
    { T o; access_point((void*)p); o = *p; if (o == e) *p = v; return o; }
ATOMIC(8, gint8) ATOMIC(16, gint16) ATOMIC(32, gint32) ATOMIC(64, gint64)
