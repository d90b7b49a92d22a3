#ifndef VH_COMMON_H
#define VH_COMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdbool.h>
static uint64_t vh_s = 88172645463325252ULL;
static inline void vh_seed(uint64_t s) { vh_s = s * 0x9E3779B97F4A7C15ULL + 0x1234567; if (!vh_s) vh_s = 1; for (int i = 0; i < 8; i++) { vh_s ^= vh_s << 13; vh_s ^= vh_s >> 7; vh_s ^= vh_s << 17; } }
static inline uint64_t vh_rnd(void) { vh_s ^= vh_s << 13; vh_s ^= vh_s >> 7; vh_s ^= vh_s << 17; return vh_s * 0x2545F4914F6CDD1DULL; }
static inline uint64_t vh_n(uint64_t n) { return (vh_rnd() >> 11) % n; }
static char vh_log[1 << 16]; static size_t vh_len; static int vh_fails; static char vh_seen[64][64];
static inline void vh_reset(void) { vh_len = 0; vh_log[0] = 0; }
static inline void vh_op(const char *f, ...) { va_list a; va_start(a, f); if (vh_len < sizeof vh_log - 200) vh_len += vsnprintf(vh_log + vh_len, 190, f, a); va_end(a); }
static inline void vh_fail(const char *key, const char *f, ...) {
    for (int i = 0; i < vh_fails && i < 64; i++) if (!strcmp(vh_seen[i], key)) return;
    if (vh_fails < 64) { strncpy(vh_seen[vh_fails], key, 63); }
    vh_fails++;
    va_list a; va_start(a, f); printf("FAIL %s | ", key); vprintf(f, a); va_end(a);
    printf(" [history: %s]\n", vh_log); fflush(stdout); }
#endif
