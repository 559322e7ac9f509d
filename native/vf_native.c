/*
 * Native driver: runs one harness on recorded inputs against the real code.
 *
 *   prog INPUTS [seed]   INPUTS: text file, one decimal number per line, or
 *                        "-" to draw pseudo-random inputs from the seed
 *
 * Exit: 0 the checks held, 66 a check failed, 77 an assumption of the harness
 * does not hold for these inputs, 65 memory leak (plain build), anything else
 * is a crash.
 */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

#ifndef VF_HARNESS
#error VF_HARNESS must name the harness function
#endif
void VF_HARNESS(void);

static uint64_t* vf_in;
static size_t vf_in_n, vf_in_pos;
static int vf_random, vf_quiet;
static uint64_t vf_rng;
static int vf_reached;

static uint64_t vf_rand(void)
{
    uint64_t x = vf_rng, r;
    x ^= x >> 12; x ^= x << 25; x ^= x >> 27;
    vf_rng = x;
    r = x * 2685821657736338717ULL;
    /* Small numbers are much more likely to satisfy the assumptions */
    switch ((x >> 5) % 8) {
    case 0: return r;
    case 1: return r >> 32;
    case 2: return (uint64_t)(-(int64_t)(r >> 60));
    case 3: return (r >> 56);
    default: return r >> 62;
    }
}

uint64_t vf_nd(void)
{
    uint64_t v;

    if (vf_in_pos < vf_in_n) {
        v = vf_in[vf_in_pos++];
    } else if (vf_random) {
        v = vf_rand();
        vf_in = realloc(vf_in, (vf_in_n + 1) * sizeof(*vf_in));
        vf_in[vf_in_n++] = v;
        vf_in_pos++;
    } else {
        v = 0;
        vf_in_pos++;
    }
    return v;
}

void vf_native_assume(int ok, const char* expr, const char* file, int line)
{
    if (!ok) {
        if (!vf_quiet) fprintf(stderr, "ASSUMPTION %s (%s:%d)\n", expr, file, line);
        _exit(77);
    }
}

void vf_native_check(int ok, const char* msg, const char* file, int line)
{
    if (!ok) {
        size_t i;
        fprintf(stderr, "CHECK FAILED: %s (%s:%d)\n", msg, file, line);
        fprintf(stderr, "inputs:");
        for (i = 0; i < vf_in_n; i++) fprintf(stderr, " %llu", (unsigned long long) vf_in[i]);
        fprintf(stderr, "\n");
        _exit(66);
    }
}

void vf_native_reach(const char* msg) { vf_reached++; }

#ifdef VF_COUNT_MALLOC
/* Plain build: balance of live heap blocks of the whole process */
static gint64 vf_count;
extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
extern void __libc_free(void*);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p) __atomic_add_fetch(&vf_count, 1, __ATOMIC_SEQ_CST); return p; }
void* calloc(size_t n, size_t m) { void* p = __libc_calloc(n, m); if (p) __atomic_add_fetch(&vf_count, 1, __ATOMIC_SEQ_CST); return p; }
void* realloc(void* o, size_t n) { void* p = __libc_realloc(o, n); if (p && !o) __atomic_add_fetch(&vf_count, 1, __ATOMIC_SEQ_CST); if (o && !n && !p) __atomic_sub_fetch(&vf_count, 1, __ATOMIC_SEQ_CST); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p) __atomic_add_fetch(&vf_count, 1, __ATOMIC_SEQ_CST); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** pp, size_t a, size_t n) { *pp = memalign(a, n); return *pp ? 0 : 12; }
void free(void* p) { if (p) { __atomic_sub_fetch(&vf_count, 1, __ATOMIC_SEQ_CST); __libc_free(p); } }
gint64 vf_live(void) { return vf_count; }
#else
gint64 vf_live(void) { return 0; }
#endif

int main(int argc, char* argv[])
{
    const char* s = getenv("VF_TIMEOUT");

    vf_quiet = getenv("VF_QUIET") != NULL;
    alarm(s ? atoi(s) : 20);
    if (argc > 2 && !strcmp(argv[1], "-")) {
        vf_random = 1;
        vf_rng = 88172645463325252ULL ^ (strtoull(argv[2], NULL, 10) * 0x9E3779B97F4A7C15ULL);
        if (!vf_rng) vf_rng = 1;
    } else if (argc > 1) {
        FILE* f = fopen(argv[1], "r");
        unsigned long long v;
        if (!f) { perror(argv[1]); return 2; }
        vf_in = malloc(sizeof(*vf_in) * 100000);
        while (vf_in_n < 100000 && fscanf(f, "%llu", &v) == 1) vf_in[vf_in_n++] = v;
        fclose(f);
    }
#ifdef VF_COUNT_MALLOC
    {
        int i;
        gint64 before = 0;

        /* Warm up GLib's own caches first */
        for (i = 0; i < 4; i++) {
            vf_in_pos = 0;
            before = vf_live();
            VF_HARNESS();
        }
        if (vf_live() != before) {
            fprintf(stderr, "CHECK FAILED: no memory is leaked or over-released (balance %+lld)\n",
                (long long)(vf_live() - before));
            return 65;
        }
    }
#else
    VF_HARNESS();
#endif
    fprintf(stderr, "OK reached=%d\n", vf_reached);
    return vf_reached ? 0 : 78;
}
