// Native side of the symbolic API: draws come from a replay file (one decimal number per draw),
// log lines are those the engine renders for the same path.
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

static uint64_t *draws;
static size_t ndraws, next_draw;
static uint64_t clock_ms = 1000000;
static FILE *out; // the log; what the code under test prints goes to stderr

void sym_load(const char *path) {
    FILE *f = fopen(path, "r");
    if (!f) { perror(path); _exit(79); }
    size_t cap = 64;
    draws = malloc(cap * sizeof *draws);
    unsigned long long v;
    while (fscanf(f, "%llu", &v) == 1) {
        if (ndraws == cap) draws = realloc(draws, (cap *= 2) * sizeof *draws);
        draws[ndraws++] = v;
    }
    fclose(f);
    out = fdopen(dup(1), "w");
    if (!out || dup2(2, 1) < 0) { perror("log"); _exit(79); }
}
void sym_end(void) { fprintf(out, "END %zu\n", ndraws - next_draw); fflush(out); _exit(0); }
static uint64_t draw(void) {
    if (next_draw >= ndraws) { fflush(out); fprintf(stderr, "replay: out of draws\n"); _exit(78); }
    return draws[next_draw++];
}
uint8_t sym_u8(void) { return (uint8_t)draw(); }
uint16_t sym_u16(void) { return (uint16_t)draw(); }
uint32_t sym_u32(void) { return (uint32_t)draw(); }
uint64_t sym_u64(void) { return draw(); }
static void bad(const char *w) { fflush(out); fprintf(stderr, "replay: %s\n", w); _exit(77); }
uint64_t sym_range(uint64_t lo, uint64_t hi) {
    uint64_t v = draw();
    if (v < lo || v > hi) bad("draw out of range");
    return v;
}
uint64_t sym_choice(uint64_t n) {
    uint64_t v = draw();
    if (v >= n) bad("choice out of range");
    return v;
}
uint64_t sym_concrete(uint64_t v) { return v; }
void sym_assume(bool b) { if (!b) bad("assumption does not hold"); }
void sym_assert(bool b, const char *p, size_t n) {
    if (b) { fprintf(out, "A %.*s\n", (int)n, p); return; }
    fprintf(out, "F %.*s\n", (int)n, p);
    fflush(out);
    _exit(3);
}
void sym_cover(const char *p, size_t n) { fprintf(out, "C %.*s\n", (int)n, p); }
void sym_observe(const char *p, size_t n, uint64_t v) { fprintf(out, "O %.*s %llu\n", (int)n, p, (unsigned long long)v); }
void sym_dump(uint64_t v) { fprintf(stderr, "dump %llu\n", (unsigned long long)v); }
void vclock_set(uint64_t ms) { clock_ms = ms; }
uint64_t vclock_get(void) { return clock_ms; }
int clock_gettime(clockid_t c, struct timespec *t) {
    (void)c;
    t->tv_sec = clock_ms / 1000;
    t->tv_nsec = (clock_ms % 1000) * 1000000;
    return 0;
}
