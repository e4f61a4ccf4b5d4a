/* Runs the exported native routines on generated sizes, for MemorySanitizer.
 * Reads lines "kind a b c d seed" and prints one checksum per line. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "csphi.h"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define CHECK(p, n) __msan_check_mem_is_initialized(p, n)
#endif
#endif
#ifndef CHECK
#define CHECK(p, n) ((void)0)
#endif

static unsigned long st;
static double rnd(void)
{
    st = st * 6364136223846793005UL + 1442695040888963407UL;
    return (double)(st >> 11) / 9007199254740992.0 - 0.5;
}
static double sum(const double *x, long n)
{
    double s = 0; long i;
    for (i = 0; i < n; i++) s += x[i] * (1 + i % 7);
    return s;
}

int main(void)
{
    char kind[32];
    int a, b, c, d, i;
    unsigned long seed;
    while (scanf("%31s %d %d %d %d %lu", kind, &a, &b, &c, &d, &seed) == 6) {
        double r = 0;
        st = seed * 2654435761UL + 1;
        if (!strcmp(kind, "fc_to_sc") || !strcmp(kind, "sc_to_fc")) {
            int L = c + 1 + d * (2 * (c + 1) - d - 1);
            int back = !strcmp(kind, "sc_to_fc");
            SCOMPLEX *f = malloc(sizeof(SCOMPLEX) * a * b);
            SCOMPLEX *s = malloc(sizeof(SCOMPLEX) * L);
            for (i = 0; i < a * b; i++) {
                f[i].r = back ? 0 : rnd(); f[i].i = back ? 0 : rnd();
            }
            if (back) {
                for (i = 0; i < L; i++) { s[i].r = rnd(); s[i].i = rnd(); }
                sc_to_fc(f, a, b, s, L, c, d);
                CHECK(f, sizeof(SCOMPLEX) * a * b);
                r = sum((double *)f, 2L * a * b);
            } else {
                /* the result is not initialised beforehand */
                fc_to_sc(f, a, b, s, L, c, d);
                CHECK(s, sizeof(SCOMPLEX) * L);
                r = sum((double *)s, 2L * L);
            }
            free(f); free(s);
        } else if (!strcmp(kind, "ynunm")) {
            double *y = malloc(sizeof(double) * c);
            ynunm(a, b, y, c);
            CHECK(y, sizeof(double) * c);
            r = sum(y, c) + ynnm(a, b);
            free(y);
        } else if (!strcmp(kind, "SData")) {
            SCOMPLEX *s = malloc(sizeof(SCOMPLEX) * a);
            SData(s, a, b, c);
            CHECK(s, sizeof(SCOMPLEX) * a);
            r = sum((double *)s, 2L * a) + FindQ(b + c);
            free(s);
        }
        CHECK(&r, sizeof r);
        printf("%s %.17g\n", kind, r);
        fflush(stdout);
    }
    return 0;
}
