/* Native replay: runs one harness of the real, natively compiled code on recorded inputs.
 * usage: replay HARNESS TIER < inputs (one unsigned 64-bit number per line)
 * prints one "OBS v" line per observation and "CHECK-FAILED id" per failed check. */
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint64_t in[65536];
static size_t n_in, at;
static int tier;
static uint64_t next(void) {
    if (at >= n_in) {
        printf("OUT-OF-INPUTS\n");
        fflush(stdout);
        _Exit(4);
    }
    return in[at++];
}
uint8_t sym_u8(void) { return (uint8_t)next(); }
uint8_t sym_u8_in(uint8_t lo, uint8_t hi) { uint8_t v = (uint8_t)next(); if (v < lo || v > hi) { printf("BAD-INPUT\n"); fflush(stdout); _Exit(4); } return v; }
uint8_t sym_u8_set(const uint8_t *p, size_t n) { uint8_t v = (uint8_t)next(); if (!memchr(p, v, n)) { printf("BAD-INPUT\n"); fflush(stdout); _Exit(4); } return v; }
int64_t sym_int(int64_t lo, int64_t hi) { int64_t v = (int64_t)next(); if (v < lo || v > hi) { printf("BAD-INPUT\n"); fflush(stdout); _Exit(4); } return v; }
uint64_t sym_choose(uint64_t n) { uint64_t v = next(); if (v >= n) { printf("BAD-INPUT\n"); fflush(stdout); _Exit(4); } return v; }
void sym_assume(bool c) {
    if (!c) {
        printf("ASSUMPTION-FALSE\n");
        fflush(stdout);
        _Exit(5);
    }
}
void sym_check(bool c, const char *p, size_t n) {
    if (!c) {
        printf("CHECK-FAILED %.*s\n", (int)n, p);
        fflush(stdout);
    }
}
void sym_reach(const char *p, size_t n) { (void)p; (void)n; }
void sym_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
void sym_end(void) { printf("END\n"); fflush(stdout); _Exit(0); }
bool sym_fork(bool c) { return c; }
void sym_unsupported(void) { printf("UNSUPPORTED\n"); fflush(stdout); _Exit(6); }
uint32_t sym_tier(void) { return (uint32_t)tier; }
double sym_dec(int64_t k, uint32_t s) {
    char b[64];
    snprintf(b, sizeof b, "%llde-%u", (long long)k, s);
    return strtod(b, 0);
}
int64_t sym_undec(double f, uint32_t prec) {
    char b[512], c[512];
    size_t j = 0;
    snprintf(b, sizeof b, "%.*f", (int)prec, f);
    for (size_t i = 0; b[i]; i++)
        if (b[i] != '.') c[j++] = b[i];
    c[j] = 0;
    return strtoll(c, 0, 10);
}
uint32_t sym_dec_scale(double f) {
    (void)f;
    return 0;
}
#include "table.h"
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    tier = atoi(argv[2]);
    char line[64];
    while (n_in < 65536 && fgets(line, sizeof line, stdin)) in[n_in++] = strtoull(line, 0, 10);
    for (size_t i = 0; i < sizeof table / sizeof *table; i++)
        if (!strcmp(table[i].name, argv[1])) {
            table[i].f();
            printf("END\n");
            fflush(stdout);
            _Exit(0);
        }
    printf("NO-SUCH-HARNESS\n");
    return 2;
}
