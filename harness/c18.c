/* C18: allocation wrappers over an instrumented allocator (fault injection, exact block list).
   argv: seed, rounds */
#include "common.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <palm/memory.h>
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *); void *__real_calloc(size_t, size_t);
static int tracing, failing; static size_t lastreq; static int nreq;
#define MAXB 4096
static struct { char *p; size_t n; } bl[MAXB]; static int nb;
static void add(void *p, size_t n) { if (tracing && nb < MAXB) { bl[nb].p = p; bl[nb++].n = n; } }
static int del(void *p) { for (int i = 0; i < nb; i++) if (bl[i].p == p) { bl[i] = bl[--nb]; return 1; } return 0; }
void *__wrap_malloc(size_t n) { if (tracing) { lastreq = n; nreq++; } if (tracing && (failing || n > (1ull << 30))) return NULL; void *p = __real_malloc(n); if (tracing && p) memset(p, 0xA5, n); add(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { size_t n = a * b; if (tracing) { lastreq = n; nreq++; } if (tracing && (failing || n > (1ull << 30))) return NULL; void *p = __real_calloc(a, b); add(p, n); return p; }
void *__wrap_realloc(void *o, size_t n) {
    if (tracing) { lastreq = n; nreq++; }
    if (tracing && (failing || n > (1ull << 30))) return NULL;
    if (!tracing) return __real_realloc(o, n);
    size_t old = 0; for (int i = 0; i < nb; i++) if (bl[i].p == o) old = bl[i].n;
    if (o && !del(o)) vh_fail("realloc", "realloc of a block that is not live");
    void *p = __real_malloc(n); memset(p, 0xA5, n); if (o) { memcpy(p, o, old < n ? old : n); __real_free(o); } add(p, n); return p; }
void __wrap_free(void *p) { if (tracing && p && !del(p)) { vh_fail("free", "free of a block that is not live"); return; } __real_free(p); }
static long cases;
static struct { unsigned char *p; size_t n; unsigned char c; } u[64]; static int nu;
static void chk(const char *op) {
    cases++;
    for (int i = 0; i < nu; i++) { int ok = 0; for (int j = 0; j < nb; j++) if ((char *)u[i].p == bl[j].p && bl[j].n >= u[i].n) ok = 1;
        if (!ok) { vh_fail(op, "a handed out block of %zu bytes is not a live allocation of that size", u[i].n); return; }
        for (size_t k = 0; k < u[i].n; k++) if (u[i].p[k] != (unsigned char)(u[i].c + k)) { vh_fail(op, "byte %zu of a block of %zu changed", k, u[i].n); return; }
        for (int j = 0; j < i; j++) if (u[i].p < u[j].p + u[j].n && u[j].p < u[i].p + u[i].n) { vh_fail(op, "blocks overlap"); return; } }
    if (nb != nu) vh_fail(op, "%d blocks allocated, %d handed out (leak or lost block)", nb, nu); }
static void fill(int i) { for (size_t k = 0; k < u[i].n; k++) u[i].p[k] = u[i].c + k; }
/* run f in a child whose allocations fail: it must end with failure, after saying so */
static int oom(const char *what, void (*f)(size_t), size_t n) {
    cases++;
    int pp[2]; if (pipe(pp)) return 0; fflush(stdout);
    pid_t c = fork();
    if (!c) { dup2(pp[1], 2); close(pp[0]); alarm(20); f(n); _exit(0); }
    close(pp[1]); static char b[4096]; ssize_t k, t = 0; while ((k = read(pp[0], b + t, sizeof b - 1 - t)) > 0) t += k; b[t] = 0; close(pp[0]);
    int st; waitpid(c, &st, 0);
    vh_reset(); vh_op("%s of %zu bytes, allocator out of memory", what, n);
    if (!WIFEXITED(st) || WEXITSTATUS(st) == 0 || WEXITSTATUS(st) >= 77) vh_fail("oom", "%s(%zu) with no memory left ended with status %#x instead of a failure exit", what, n, st);
    else if (!strstr(b, "emory")) vh_fail("oom", "%s(%zu): no out-of-memory message: %s", what, n, b);
    return 0; }
static void f_malloc(size_t n) { tracing = failing = 1; void *p = MEMmalloc(n); tracing = 0; (void)p; }
static char src[100];
static void f_copy(size_t n) { tracing = failing = 1; MEMcopy(n, src); tracing = 0; }
static void f_realloc(size_t n) { tracing = 1; void *p = MEMmalloc(10); failing = 1; MEMrealloc(p, n); tracing = 0; }
static void f_realloc0(size_t n) { tracing = failing = 1; MEMrealloc(NULL, n); tracing = 0; }
int main(int c, char **v) {
    vh_seed(atoi(v[1])); long N = atol(v[2]);
    setvbuf(stdout, NULL, _IOLBF, 1 << 14); printf("AT start\n");
    for (long r = 0; r < N && !vh_fails; r++) {
        vh_reset(); nu = 0; nb = 0;
        int len = 1 + vh_n(30);
        for (int s = 0; s < len && !vh_fails; s++) {
            int op = vh_n(8); size_t n = vh_n(3) ? vh_n(40) : vh_n(20) == 0 ? vh_n(200000) : vh_n(3000);
            int i = nu ? vh_n(nu) : -1;
            if (op < 2 && nu < 40) { vh_op("malloc %zu; ", n); tracing = 1; nreq = 0; void *p = MEMmalloc(n); tracing = 0;
                if (n == 0) { if (p) vh_fail("MEMmalloc", "size 0 yields a block"); }
                else { if (!p) vh_fail("MEMmalloc", "NULL for %zu bytes", n); else { u[nu].p = p; u[nu].n = n; u[nu].c = vh_rnd(); fill(nu++); chk("MEMmalloc"); } } }
            else if (op == 2 && nu < 40 && i >= 0) { size_t k = 1 + vh_n(u[i].n); vh_op("copy %zu of block %d; ", k, i); tracing = 1; void *p = MEMcopy(k, u[i].p); tracing = 0;
                if (!p || p == u[i].p) { vh_fail("MEMcopy", "not a fresh block"); break; } u[nu].p = p; u[nu].n = k; u[nu].c = u[i].c; nu++; chk("MEMcopy"); }
            else if (op < 6) { if (op == 3 && nu >= 40) continue;
                if (i < 0 || (op == 3 && !vh_n(3))) { vh_op("realloc NULL %zu; ", n); tracing = 1; void *p = MEMrealloc(NULL, n); tracing = 0;
                    if (!n != !p) { vh_fail("MEMrealloc", "realloc(NULL,%zu) gives %p", n, p); break; } if (n) { u[nu].p = p; u[nu].n = n; u[nu].c = vh_rnd(); fill(nu++); chk("MEMrealloc"); } }
                else { if (!vh_n(6)) n = 0; vh_op("realloc block %d (%zu) to %zu; ", i, u[i].n, n); tracing = 1; void *p = MEMrealloc(u[i].p, n); tracing = 0;
                    if (!n != !p) { vh_fail("MEMrealloc", "realloc to %zu gives %p", n, p); break; }
                    if (!n) { u[i] = u[--nu]; chk("MEMrealloc"); }
                    else { size_t o = u[i].n; u[i].p = p; u[i].n = n < o ? n : o; chk("MEMrealloc"); u[i].n = n; fill(i); chk("MEMrealloc"); } } }
            else { if (i < 0) { vh_op("free NULL; "); if (MEMfree(NULL)) vh_fail("MEMfree", "not NULL"); continue; }
                vh_op("free block %d; ", i); tracing = 1; void *p = MEMfree(u[i].p); tracing = 0; u[i] = u[--nu]; if (p) vh_fail("MEMfree", "does not yield NULL"); chk("MEMfree"); }
        }
        tracing = 0; for (int i = 0; i < nu && !vh_fails; i++) __real_free(u[i].p);
    }
    if (vh_fails) { printf("CASES %ld memory\n", cases); return 1; }
    printf("AT out of memory\n"); fflush(stdout);
    size_t sz[] = { 1, 2, 16, 4095, 1u << 20, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x100000010ull, 1ull << 40 };
    for (int i = 0; i < 11; i++) { oom("MEMmalloc", f_malloc, sz[i]); oom("MEMrealloc", f_realloc, sz[i]); oom("MEMrealloc(NULL)", f_realloc0, sz[i]); if (sz[i] < 100) oom("MEMcopy", f_copy, sz[i]); else oom("MEMcopy", f_copy, sz[i]); }
    printf("CASES %ld memory\n", cases);
    return vh_fails ? 1 : 0;
}
