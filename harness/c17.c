/* C17: diagnostics. stderr of every call is captured and compared with the message that was
   issued (white space aside), its header, its position and the counters. argv: seed, rounds */
#include "common.h"
#include <ctype.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <palm/ctinfo.h>
static long cases; static int cap, save;
static char out[400000];
static void begin(void) { fflush(stderr); ftruncate(cap, 0); lseek(cap, 0, SEEK_SET); dup2(cap, 2); }
static void end(void) { fflush(stderr); dup2(save, 2); lseek(cap, 0, SEEK_SET); ssize_t t = 0, k; while ((k = read(cap, out + t, sizeof out - 1 - t)) > 0) t += k; out[t] = 0; }
static char *squeeze(const char *s, char *o) { char *b = o; for (; *s; s++) if (!isspace((unsigned char)*s)) *b++ = *s; *b = 0; return o; }
static const char *hd[] = { "", "note: ", "warning: ", "error: " };
static enum cti_type ty[] = { CTI_STATE, CTI_NOTE, CTI_WARN, CTI_ERROR };
static int nerr, nwarn;
static char msg[200000], want[400000], a[400000], b[400000];
static void location(char *o, struct ctinfo *i) {
    int rng = 0, col = 0;
    if (i->first_line > 0 && i->first_column <= 0) sprintf(o, " --> %s:%d\n", i->filename, i->first_line);
    else if (i->last_column <= 0 || ((i->last_line <= 0 || i->first_line == i->last_line) && i->first_column == i->last_column)) { col = 1; sprintf(o, " --> %s:%d:%d\n", i->filename, i->first_line, i->first_column); }
    else { rng = 1; if (i->last_line == 0 || i->first_line == i->last_line) sprintf(o, " --> %s:%d.%d-%d\n", i->filename, i->first_line, i->first_column, i->last_column);
        else sprintf(o, " --> %s:%d.%d-%d.%d\n", i->filename, i->first_line, i->first_column, i->last_line, i->last_column); }
    if ((rng || col) && i->line) { o += strlen(o); o += sprintf(o, " |> %s\n    ", i->line); for (int c = 1; c < i->first_column; c++) *o++ = ' '; *o++ = '^';
        int c = i->first_column > 1 ? i->first_column : 1; for (c++; c <= i->last_column; c++) *o++ = '~'; *o++ = '\n'; *o = 0; } }
static const char *show(const char *s) { static char o[400]; int j = 0; for (; *s && j < 380; s++) if (*s == '\n') { o[j++] = '\\'; o[j++] = 'n'; } else o[j++] = *s; o[j] = 0; return o; }
static void verify(const char *fn, int t, struct ctinfo *info) {
    cases++;
    end();
    if (t == 3) nerr++; if (t == 2) nwarn++;
    squeeze(msg, b);
    if (*b) sprintf(want, "%s%s", hd[t], msg); else { want[0] = 0; if (!strncmp(out, hd[t], strlen(hd[t]))) strcpy(want, hd[t]); }
    char loc[4000] = ""; if (info) location(loc, info);
    strcat(want, loc);
    if (strcmp(squeeze(out, a), squeeze(want, b))) { size_t k = 0; while (a[k] == b[k]) k++; vh_fail(fn, "printed text differs at character %zu: message of %zu characters \"%s\": got \"%.60s\", expected \"%.60s\"", k, strlen(msg), show(msg), a + k, b + k); }
    if (info && *loc && !strstr(out, loc)) vh_fail("position", "position printed wrongly: \"%s\"", show(out));
    if (*msg && strncmp(out, hd[t], strlen(hd[t])) && !isspace((unsigned char)msg[0]) ) vh_fail("header", "output does not start with the header \"%s\": \"%s\"", hd[t], show(out));
    if (CTIgetErrors() != nerr) vh_fail("errors", "error count %d, expected %d", CTIgetErrors(), nerr);
    if (CTIgetWarnings() != nwarn) vh_fail("warnings", "warning count %d, expected %d", CTIgetWarnings(), nwarn); }
static int child(void (*f)(void), const char *name, int mustfail) {
    cases++; fflush(stdout); begin(); pid_t c = fork();
    if (!c) { alarm(20); f(); fflush(stderr); _exit(123); }
    int st; waitpid(c, &st, 0); end();
    if (mustfail) { if (!WIFEXITED(st) || WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 123) vh_fail("stop", "%s with %d errors: wait status %#x instead of a failure exit", name, nerr, st);
        else if (!strstr(out, "ailed") && !strstr(out, "abort")) vh_fail("stop", "%s: nothing reported", name); }
    else if (!WIFEXITED(st) || WEXITSTATUS(st) != 123) vh_fail("stop", "%s with %d errors, %d warnings: stopped (status %#x)", name, nerr, nwarn, st);
    return 0; }
static void oom(void) { CTIabortOutOfMemory(17); }
static int r_small;
static void gen(int mode) {
    int n = mode == 0 ? vh_n(30) : mode == 1 ? vh_n(400) : mode == 2 ? 110 + vh_n(20) : vh_n(3) ? vh_n(3000) : vh_n(60000);
    const char *al = vh_n(3) ? "abcXYZ09 _-@%.\t" : vh_n(2) ? "a" : "word @\n,b c\t";
    static int top = 30; if (!vh_n(4) && top < 60000) n = top + vh_n(6); else if (r_small) n = n % (top + 3); if (n > top) top = n;
    int k = strlen(al); if (mode == 2 && vh_n(2)) { al = "x"; k = 1; }
    for (int i = 0; i < n; i++) msg[i] = al[vh_n(k)]; msg[n] = 0;
    if (mode == 2 && n > 1) for (int q = vh_n(4); q; q--) msg[vh_n(n)] = vh_n(3) ? ' ' : '\n'; }
int main(int c, char **v) {
    vh_seed(atoi(v[1])); long N = atol(v[2]);
    setvbuf(stdout, NULL, _IOLBF, 4096);
    char tn[] = "/tmp/c17XXXXXX"; cap = mkstemp(tn); unlink(tn); save = dup(2);
    printf("AT start\n");
    for (long r = 0; r < N && vh_fails < 4; r++) {
        int t = vh_n(4), nl = vh_n(2); vh_reset();
        r_small = r % 7 != 0; gen(r < 40 ? r % 3 : vh_n(40) == 0 ? 3 : vh_n(3));
        if (r % 500 == 3) { int n = 119 + vh_n(4); memset(msg, 'y', n); msg[n] = 0; }
        int split = vh_n(strlen(msg) + 1);
        vh_op("message %ld of %zu characters, type %s", r, strlen(msg), hd[t]);
        if (vh_n(2)) {
            begin();
            if (vh_n(2)) CTI(ty[t], nl, "%s", msg); else { char f[100]; sprintf(f, "%%.*s%%s"); CTI(ty[t], nl, f, split, msg, msg + split); }
            verify("CTI", t, NULL);
        } else {
            struct ctinfo i = { 0 }; static char fname[40], line[300]; char *L = line; int ll = vh_n(120);
            sprintf(fname, "f%d.c", (int)vh_n(1000)); for (int q = 0; q < ll; q++) line[q] = 'a' + q % 26; line[ll] = 0;
            i.filename = fname; i.line = vh_n(3) ? L : NULL; i.first_line = 1 + vh_n(50); i.first_column = (int)vh_n(100) - 5; i.last_line = vh_n(3) ? 0 : i.first_line + vh_n(3); i.last_column = vh_n(3) ? (i.first_column > 0 ? i.first_column : 0) + vh_n(20) : 0;
            if (!vh_n(4)) { i.first_column = i.last_column = 0; }
            int num = (int)vh_rnd(); char tmp[40]; sprintf(tmp, "%d", num);
            vh_op(" at %s:%d.%d-%d.%d", fname, i.first_line, i.first_column, i.last_line, i.last_column);
            begin(); CTIobj(ty[t], nl, i, "%d%s", num, msg); memmove(msg + strlen(tmp), msg, strlen(msg) + 1); memcpy(msg, tmp, strlen(tmp));
            verify("CTIobj", t, &i);
        }
        if (r < 3 || nerr % 64 == 0 || r % 97 == 0) { child(CTIabortOnError, "CTIabortOnError", nerr != 0); if (r % 5 == 0) { child(CTIabortCompilation, "CTIabortCompilation", 1); child(oom, "CTIabortOutOfMemory", 1); } }
    }
    /* exactly 256 and 512 errors, only warnings */
    for (int n = 0; n < 1 && !vh_fails; n++) { while (nerr % 256) { strcpy(msg, "e"); begin(); CTI(CTI_ERROR, 0, "e"); verify("CTI", 3, NULL); } child(CTIabortOnError, "CTIabortOnError", 1); child(CTIabortCompilation, "CTIabortCompilation", 1); }
    printf("CASES %ld messages\n", cases);
    return vh_fails ? 1 : 0;
}
