/* C02: string library against a reference, every argument in an exactly sized block
   (so that ASan sees any access outside). argv: seed, number of random cases, maximal length */
#include "common.h"
#include <ctype.h>
#include <limits.h>
#include <palm/str.h>
#include <palm/memory.h>
static long cases;
static char keep[6][70000]; static char *arg[6]; static size_t alen[6]; static int nargs;
static void clear_args(void) { for (int i = 0; i < nargs; i++) free(arg[i]); nargs = 0; }
static char *A(const char *s) {
    if (!s) return NULL;
    size_t n = strlen(s); char *p = malloc(n + 1); memcpy(p, s, n + 1);
    memcpy(keep[nargs], s, n + 1); alen[nargs] = n; arg[nargs++] = p; return p; }
static const char *Q(const char *s) {   /* printable */
    static char b[8][260]; static int k; char *o = b[k = (k + 1) % 8]; size_t j = 0;
    if (!s) return "NULL";
    o[j++] = '"';
    for (size_t i = 0; s[i] && j < 240; i++) { unsigned char c = s[i]; if (c < 32 || c > 126) j += sprintf(o + j, "\\x%02x", c); else o[j++] = c; }
    o[j++] = '"'; o[j] = 0; return o; }
static void kept(const char *fn) { for (int i = 0; i < nargs; i++) if (memcmp(arg[i], keep[i], alen[i] + 1)) vh_fail(fn, "%s changed its argument %d: %s -> %s", fn, i, Q(keep[i]), Q(arg[i])); }
static void notarg(const char *fn, const char *r) { for (int i = 0; i < nargs; i++) if (r && r == arg[i]) vh_fail(fn, "%s returned its argument instead of a fresh string", fn); }
/* r must be a fresh string equal to want (NULL: NULL) */
static void got(const char *fn, char *r, const char *want) {
    cases++;
    if ((!r) != (!want)) vh_fail(fn, "%s gives %s, expected %s", vh_log, Q(r), Q(want));
    else if (r) {
        if (strcmp(r, want)) vh_fail(fn, "%s gives %s, expected %s", vh_log, Q(r), Q(want));
        notarg(fn, r); kept(fn); free(r); return;
    }
    kept(fn);
}
static void gotn(const char *fn, long r, long want) { cases++; if (r != want) vh_fail(fn, "%s gives %ld, expected %ld", vh_log, r, want); kept(fn); }
#define CALL(...) do { vh_reset(); vh_op(__VA_ARGS__); } while (0)
static char buf[300000];
static const char *low(const char *s, int up) { size_t i; for (i = 0; s[i]; i++) { unsigned char c = s[i]; buf[i] = up ? ((c >= 'a' && c <= 'z') ? c - 32 : c) : ((c >= 'A' && c <= 'Z') ? c + 32 : c); } buf[i] = 0; return buf; }
static int lc(unsigned char c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
static void one(const char *s) {
    char *a; size_t L = s ? strlen(s) : 0;
    a = A(s); CALL("STRlen(%s)", Q(s)); gotn("STRlen", STRlen(a), L); clear_args();
    a = A(s); CALL("STRcpy(%s)", Q(s)); got("STRcpy", STRcpy(a), s); clear_args();
    if (s) {
        a = A(s); CALL("STRlower(%s)", Q(s)); got("STRlower", STRlower(a), low(s, 0)); clear_args();
        a = A(s); CALL("STRupper(%s)", Q(s)); got("STRupper", STRupper(a), low(s, 1)); clear_args();
        a = A(s); CALL("STRtoLower(%s)", Q(s)); STRtoLower(a); cases++; if (strcmp(a, low(s, 0))) vh_fail("STRtoLower", "gives %s", Q(a)); clear_args();
        a = A(s); CALL("STRtoUpper(%s)", Q(s)); STRtoUpper(a); cases++; if (strcmp(a, low(s, 1))) vh_fail("STRtoUpper", "gives %s", Q(a)); clear_args();
    } else {
        CALL("STRlower(NULL)"); got("STRlower", STRlower(NULL), NULL); got("STRupper", STRupper(NULL), NULL); STRtoLower(NULL); STRtoUpper(NULL);
    }
    char alt[] = "alt";
    a = A(s); CALL("STRonNull(alt,%s)", Q(s)); cases++; if (STRonNull(alt, a) != (s ? a : alt)) vh_fail("STRonNull", "wrong for %s", Q(s)); clear_args();
    for (long n = 0; n <= (long)L + 2; n = n < 6 || n > (long)L - 2 ? n + 1 : n * 2 < (long)L - 1 ? n * 2 : (long)L - 1) {
        a = A(s); CALL("STRncpy(%s,%ld)", Q(s), n);
        if (s) { size_t m = (size_t)n < L ? (size_t)n : L; memcpy(buf, s, m); buf[m] = 0; }
        got("STRncpy", STRncpy(a, n), s ? buf : NULL); clear_args();
    }
    if (s) for (int st = 0; st <= (int)L + 2; st = st < 5 || st > (int)L - 3 ? st + 1 : (int)L - 2) for (int k = -(int)L - 3; k <= (int)L + 3; k = k < -(int)L + 3 || k > (int)L - 4 || (k > -5 && k < 5) ? k + 1 : k < 0 ? -4 : (int)L - 3) {
        int l = k < 0 ? (int)L + k : k;
        if (l > (int)L - st) l = (int)L - st;
        if (l < 0) l = 0;
        if (st <= (int)L) memcpy(buf, s + st, l); else l = 0;
        buf[l] = 0;
        a = A(s); CALL("STRsubStr(%s,%d,%d)", Q(s), st, k); got("STRsubStr", STRsubStr(a, st, k), buf); clear_args();
    }
    if (s) { a = A(s); CALL("STRsubStr(%s,0,INT_MAX)", Q(s)); got("STRsubStr", STRsubStr(a, 0, INT_MAX), s); clear_args(); }
    if (s) {
        char *t = A(s); CALL("STRfmt(\"%%s|%%d|%%s\",%s)", Q(s)); sprintf(buf, "%s|%d|%s", s, (int)L - 2, s); got("STRfmt", STRfmt("%s|%d|%s", t, (int)L - 2, t), buf); clear_args();
    }
}
static int sgn(int x) { return x ? 1 : 0; }
static int eqci(const char *a, const char *b) { while (*a && lc(*a) == lc(*b)) { a++; b++; } return lc(*a) == lc(*b); }
static void two(const char *s, const char *t) {
    char *a, *b; size_t L = s ? strlen(s) : 0, K = t ? strlen(t) : 0;
    int bothnull = !s && !t, onenull = !s != !t;
#define PAIR(name) a = A(s); b = A(t); CALL(name "(%s,%s)", Q(s), Q(t));
    PAIR("STReq") gotn("STReq", STReq(a, b), bothnull ? 1 : onenull ? 0 : !strcmp(s, t)); clear_args();
    PAIR("STReqci") gotn("STReqci", STReqci(a, b), bothnull ? 1 : onenull ? 0 : eqci(s, t)); clear_args();
    PAIR("STRprefix") gotn("STRprefix", STRprefix(a, b), !s ? 1 : !t ? 0 : L <= K && !memcmp(s, t, L)); clear_args();
    PAIR("STRsuffix") gotn("STRsuffix", STRsuffix(a, b), !s ? 1 : !t ? 0 : L <= K && !memcmp(s, t + K - L, L)); clear_args();
    PAIR("STRsub") gotn("STRsub", STRsub(a, b), !s ? 1 : !t ? 0 : !!strstr(t, s)); clear_args();
    if (!bothnull) sprintf(buf, "%s%s", s ? s : "", t ? t : "");
    PAIR("STRcat") got("STRcat", STRcat(a, b), bothnull ? NULL : buf); clear_args();
    size_t mx = L > K ? L : K;
    for (size_t n = 0; n <= mx + 1; n = n < 5 || n + 2 > mx ? n + 1 : mx - 1) {
        PAIR("STReqn") vh_op(" n=%d", (int)n);
        gotn("STReqn", STReqn(a, b, n), bothnull ? 1 : onenull ? n == 0 : !strncmp(s, t, n)); clear_args();
    }
    /* tokens: t as separators */
    if (s) {
        a = A(s); b = A(t); CALL("STRtok(%s,%s)", Q(s), Q(t));
        const char *p = s; int k = 0; char *first = a;
        for (;;) {
            char *r = STRtok(first, b); first = NULL;
            if (!p) { cases++; if (r) { vh_fail("STRtok", "token %d is %s, expected NULL", k, Q(r)); } kept("STRtok");
                if (STRtok(NULL, b)) vh_fail("STRtok", "token after the last one"); break; }
            size_t n = 0; while (p[n] && !(t && strchr(t, p[n]))) n++;
            memcpy(buf, p, n); buf[n] = 0; p = p[n] ? p + n + 1 : NULL;
            vh_op(" #%d", k++);
            got("STRtok", r, buf);
            if (vh_fails) break;
        }
        clear_args();
    }
}
static void three(const char *s, const char *t, const char *u) {
    char *a, *b, *c;
    a = A(s); b = A(t); c = A(u); CALL("STRcatn(3,%s,%s,%s)", Q(s), Q(t), Q(u));
    sprintf(buf, "%s%s%s", s ? s : "", t ? t : "", u ? u : "");
    got("STRcatn", STRcatn(3, a, b, c), s || t || u ? buf : NULL); clear_args();
    if (t && *t) {
        a = A(s); b = A(t); c = A(u); CALL("STRsubstToken(%s,%s,%s)", Q(s), Q(t), Q(u));
        char *o = buf; const char *p = s; size_t L = strlen(t);
        while (p && *p) if (!strncmp(p, t, L)) { strcpy(o, u ? u : ""); o += strlen(o); p += L; } else *o++ = *p++;
        *o = 0;
        if (u) got("STRsubstToken", STRsubstToken(a, b, c), s ? buf : NULL);
        clear_args();
    }
}
static const char *alpha = "aAb,\x7f\xe9Zz @[`{%";
static char *rnds(int max, int na) { int n = vh_n(max + 1); char *p = malloc(n + 1); for (int i = 0; i < n; i++) p[i] = alpha[vh_n(na)]; p[n] = 0; return p; }
int main(int c, char **v) {
    vh_seed(atoi(v[1])); long N = atol(v[2]); int M = atoi(v[3]);
    static char *all[4000]; int na = 0; all[na++] = NULL;
    for (int len = 0; len <= M; len++) { int tot = 1; for (int i = 0; i < len; i++) tot *= 4;
        for (int x = 0; x < tot; x++) { char *p = malloc(len + 1); int y = x; for (int i = 0; i < len; i++) { p[i] = "aAb,"[y % 4]; y /= 4; } p[len] = 0; all[na++] = p; } }
    { char *r = STRnull(); cases++; if (!r || *r) vh_fail("STRnull", "not an empty string"); free(r); }
    printf("AT single strings\n");
    for (int i = 0; i < na; i++) one(all[i]);
    for (int x = 1; x < 256; x++) { char z[3] = { x, 'Q', 0 }; one(z); char y[2] = { x == 255 ? 1 : x + 1, 0 }, w[2] = { x, 0 }; two(w, y);
        for (int k = 1; k < 256; k++) { char q[2] = { k, 0 }; CALL("STReqci(%s,%s)", Q(w), Q(q)); gotn("STReqci", STReqci(w, q), lc(x) == lc(k)); } }
    printf("AT pairs\n"); fflush(stdout);
    for (int i = 0; i < na; i++) for (int j = 0; j < na; j++) two(all[i], all[j]);
    printf("AT triples\n"); fflush(stdout);
    for (int i = 0; i < na && i < 90; i++) for (int j = 0; j < na && j < 22; j++) for (int k = 0; k < na && k < 22; k++) three(all[i], all[j], all[k]);
    printf("AT numbers\n"); fflush(stdout);
    for (int i = 0; i < 200; i++) { int n = i == 0 ? INT_MIN : i == 1 ? INT_MAX : i < 40 ? i - 20 : (int)vh_rnd(); CALL("STRitoa(%d)", n); sprintf(buf, "%d", n); got("STRitoa", STRitoa(n), buf); }
    printf("AT random\n"); fflush(stdout);
    for (long i = 0; i < N; i++) {
        int k = 1 + vh_n(13), m = i % 50 == 0 ? 3000 : i % 10 == 0 ? 200 : 12;
        char *s = rnds(m, k), *t = rnds(i % 3 ? 3 : m, k), *u = rnds(6, k);
        if (i % 4 == 0) { free(t); size_t L = strlen(s), o = vh_n(L + 1); t = strdup(s + o); if (i % 8 == 0) t[vh_n(strlen(t) + 1)] = 0; }
        if (i % 7 == 0) { free(t); t = strdup(s); for (size_t x = 0; t[x]; x++) if (isalpha((unsigned char)t[x]) && vh_n(2)) t[x] ^= 32; }
        one(s); two(s, t); two(t, s); if (strlen(s) < 300) three(s, t, u);
        char *w = STRcatn(6, s, u, NULL, t, "", u); CALL("STRcatn(6,%s,%s,NULL,%s,\"\",%s)", Q(s), Q(u), Q(t), Q(u)); sprintf(buf, "%s%s%s%s", s, u, t, u); got("STRcatn", w, buf);
        free(s); free(t); free(u);
    }
    printf("CASES %ld strings\n", cases);
    return vh_fails ? 1 : 0;
}
