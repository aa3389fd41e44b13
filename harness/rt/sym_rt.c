/* Native runtime for the harness API: replays the concrete input values of one
 * symbolic path (or one counterexample) against the natively compiled code.  */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>

static uint64_t *vals; static size_t nvals, pos, ncap;
static uint64_t params[16]; static int nparams;
static uint64_t seed; static unsigned nchecks;

void sym_rt_init(const char *file, int np, const uint64_t *ps) {
    FILE *f = fopen(file, "r");
    if (!f) { fprintf(stderr, "cannot open %s\n", file); _exit(21); }
    unsigned long long v;
    while (fscanf(f, "%llu", &v) == 1) {
        if (nvals == ncap) { ncap = ncap ? 2 * ncap : 64; vals = realloc(vals, ncap * sizeof *vals); }
        vals[nvals++] = v;
    }
    fclose(f);
    for (int i = 0; i < np && i < 16; i++) params[i] = ps[i];
    nparams = np;
}
static uint64_t next(const char *what) {
    if (pos >= nvals) { printf("REPLAY-EXHAUSTED %s\n", what); fflush(stdout); _exit(22); }
    return vals[pos++];
}
uint64_t __sym_range(uint64_t lo, uint64_t hi) {
    uint64_t v = next("range");
    if (lo >= hi ? v != lo : (v < lo || v > hi)) { printf("REPLAY-MISMATCH range\n"); fflush(stdout); _exit(23); }
    return v;
}
uint64_t __sym_choose(uint64_t n) {
    uint64_t v = next("choose");
    if (v >= n) { printf("REPLAY-MISMATCH choose\n"); fflush(stdout); _exit(23); }
    return v;
}
void __sym_assume(_Bool b) { if (!b) { printf("ASSUME-FALSE\n"); fflush(stdout); _exit(11); } }
void __sym_check(_Bool b, const char *p, uint64_t n) {
    nchecks++;
    if (!b) { printf("CHECK-FAIL %.*s\n", (int)n, p); fflush(stdout); _exit(10); }
}
void __sym_reach(uint32_t id) { printf("REACH %u\n", id); }
void __sym_note(uint32_t kind, const unsigned char *p, uint64_t n) {
    printf("NOTE %u ", kind);
    for (uint64_t i = 0; i < n; i++) printf("%02x", p[i]);
    printf("\n");
}
uint64_t __sym_concretize(uint64_t v) { return v; }
void __sym_concretize_bytes(const unsigned char *p, uint64_t n) { (void)p; (void)n; }
void __sym_seed(uint64_t s) { seed = s; }
uint64_t __sym_param(uint64_t i) { return i < (uint64_t)nparams ? params[i] : 0; }
_Bool __sym_is_symbolic(void) { return 1; }
void sym_rt_done(void) { printf("DONE checks=%u unread=%zu\n", nchecks, nvals - pos); fflush(stdout); _exit(0); }

/* for harnesses that bring their own file operations and program arguments */
ssize_t __sym_raw_write(int fd, const void *p, size_t n) { return syscall(SYS_write, fd, p, n); }
extern void (*__init_array_start[])(void) __attribute__((visibility("hidden")));
extern void (*__init_array_end[])(void) __attribute__((visibility("hidden")));
void *__sym_init_fn(uint64_t i) { return i < (uint64_t)(__init_array_end - __init_array_start) ? (void *)__init_array_start[i] : NULL; }

static unsigned char seed_byte(uint64_t s, uint64_t i) {
    uint64_t x = s * 0x9E3779B97F4A7C15ull + (i + 1) * 0xBF58476D1CE4E5B9ull;
    x ^= x >> 31; x *= 0x94D049BB133111EBull; x ^= x >> 29;
    return (unsigned char)x;
}
/* Overrides libc's getrandom: the seeds of std's hash maps become reproducible. */
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    for (size_t i = 0; i < n; i++) ((unsigned char *)buf)[i] = seed_byte(seed, i);
    return (ssize_t)n;
}
