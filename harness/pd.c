/* C04, C05, C06: the real phase driver against a reference interpreter, on random phase
   structures with stand-ins for the actions, gates and the tree check.
   argv: property (4, 5, 6 or 0 for all), seed, rounds */
#include "common.h"
#include <setjmp.h>
#include <ctype.h>
#include <fcntl.h>
#include <unistd.h>
#include "ccn/action_types.h"
#include "ccn/dynamic_core.h"
#include "ccn/phase_driver.h"
#include "palm/ctinfo.h"
static int P;
#define MAXA 120
#define NT 4000
/* declared structure */
static struct ccn_action act[MAXA]; static int na; static enum ccn_action_id tab[MAXA][12]; static char names[MAXA][40];
static struct { int notify[8], nnot; } dummy;
/* behaviour: depends on (action, how often it ran) */
static uint64_t bseed; static int p_notify, p_aerr, p_perr, p_cerr, p_gate, p_new, force_quiet;
static uint64_t hsh(uint64_t a, uint64_t b, uint64_t c) { uint64_t x = bseed ^ a * 0x9E3779B97F4A7C15ULL ^ b * 0xC2B2AE3D27D4EB4FULL ^ c * 0x165667B19E3779F9ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32; return x % 1000; }
static char trees[NT + 10];     /* addresses serve as trees */
#define TREE(i) ((struct ccn_node *)(trees + (i)))
struct ev { char k; int a, tree, id; };
static struct ev got[NT], want[NT]; static int ng, nw, over;
static int gotexit, wantexit;   /* -1: returned, else status class: 0 success, 1 failure */
static jmp_buf jb; static int inrun;
static int ran_g[MAXA], ran_w[MAXA], gate_g[MAXA], gate_w[MAXA], chk_g, chk_w; static int fresh_g, fresh_w;
static void E(struct ev *t, int *n, char k, int a, int tree, int id) { if (*n >= NT) { over = 1; return; } t[*n].k = k; t[*n].a = a; t[*n].tree = tree; t[*n].id = id; ++*n; }
void __real_exit(int);
void __wrap_exit(int c) { if (!inrun) __real_exit(c); gotexit = (c & 255) != 0; longjmp(jb, 1); }
void __wrap_err(int c, const char *f, ...) { if (!inrun) __real_exit(99); gotexit = 1; longjmp(jb, 1); }
void __wrap_errx(int c, const char *f, ...) { if (!inrun) __real_exit(99); gotexit = 1; longjmp(jb, 1); }
static struct ccn_node *exec_action(int a, struct ccn_node *n, char k) {
    int r = ran_g[a]++;
    if (ng >= NT - 2) { over = 1; longjmp(jb, 1); }
    E(got, &ng, k, a, (char *)n - trees, CCNgetCurrentActionId());
    if (hsh(a, r, 1) < p_notify) CCNcycleNotify();
    if (hsh(a, r, 2) < p_aerr) CCNerrorAction();
    if (hsh(a, r, 3) < p_perr) CCNerrorPhase();
    return hsh(a, r, 4) < p_new ? TREE(++fresh_g) : n; }
/* stand-ins for the generated code and the traversal core */
struct ccn_node *TRAVstart(struct ccn_node *n, enum ccn_traversal_type t) {
    if (t == TRAV_check) { E(got, &ng, 'c', 0, (char *)n - trees, CCNgetCurrentActionId()); if (hsh(777, chk_g++, 5) < p_cerr) CTI(CTI_ERROR, false, "check"); return n; }
    if (t == TRAV_free) { E(got, &ng, 'f', 0, (char *)n - trees, 0); return NULL; }
    if (t == TRAV_cpy) return n;
    return exec_action((int)t - 1000, n, 't'); }
struct ccn_node *PASSstart(struct ccn_node *n, enum ccn_pass_type t) { return exec_action((int)t - 1000, n, 'p'); }
struct ccn_node *CCNfree(struct ccn_node *n) { return TRAVstart(n, TRAV_free); }
struct ccn_node *CCNcopy(struct ccn_node *n) { return n; }
struct ccn_action *CCNgetActionFromID(enum ccn_action_id id) {
    if (id == CCN_ROOT_ACTION) return &act[0];
    return &act[(int)id - 1000]; }
void BreakpointHandler(node_st *n) { E(got, &ng, 'b', 0, (char *)n - trees, 0); }
static int gateval(int a, int r) { return hsh(a, r, 6) >= p_gate; }
static bool gate_run(int a) { int r = gate_g[a]++; E(got, &ng, 'g', a, 0, CCNgetCurrentActionId()); return gateval(a, r); }
#define G(i) static bool gate##i(void) { return gate_run(i); }
#define G8(f) G(f##0) G(f##1) G(f##2) G(f##3) G(f##4) G(f##5) G(f##6) G(f##7) G(f##8) G(f##9)
G(0) G(1) G(2) G(3) G(4) G(5) G(6) G(7) G(8) G(9) G8(1) G8(2) G8(3) G8(4) G8(5) G8(6) G8(7)
#define L8(f) gate##f##0, gate##f##1, gate##f##2, gate##f##3, gate##f##4, gate##f##5, gate##f##6, gate##f##7, gate##f##8, gate##f##9
static bool (*gates[])(void) = { gate0, gate1, gate2, gate3, gate4, gate5, gate6, gate7, gate8, gate9, L8(1), L8(2), L8(3), L8(4), L8(5), L8(6), L8(7) };
#define MA 80
/* random structure */
static int kids[MAXA][12], nk[MAXA], typ[MAXA], cyc[MAXA], gat[MAXA], pos[MAXA], par[MAXA]; static int gen_cyc, gen_gate;
static int mk(int depth) {
    int a = na++; nk[a] = 0; cyc[a] = 0; gat[a] = 0;
    typ[a] = depth == 0 || (depth < 4 && na < 60 && vh_n(10) < 4) ? 2 : vh_n(2);
    if (typ[a] == 2) { cyc[a] = depth && vh_n(100) < gen_cyc; gat[a] = vh_n(100) < gen_gate && depth; int k = vh_n(8) == 0 ? 0 : 1 + vh_n(depth ? 3 : 5); if (depth == 0 && !k) k = 1; for (int i = 0; i < k && na < MA - 2; i++) { kids[a][nk[a]++] = -2; int c = mk(depth + 1); kids[a][nk[a] - 1] = c; par[c] = a; } }
    return a; }
static int number(int a, int n) { pos[a] = n++; for (int i = 0; i < nk[a]; i++) n = number(kids[a][i], n); return n; }
static void desc(int a) { vh_op("%s%s%s", typ[a] == 2 ? (cyc[a] ? "cycle " : "phase ") : typ[a] ? "trav " : "pass ", names[a], gat[a] ? "?" : ""); if (typ[a] == 2) { vh_op("{"); for (int i = 0; i < nk[a]; i++) { if (i) vh_op(" "); desc(kids[a][i]); } vh_op("}"); } }
/* reference interpreter */
static int maxc, check; static char *bp; static int bpid; static jmp_buf wj;
static int aerr, perr, wid, note;
static int eqci(const char *a, const char *b) { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) a++, b++; return !*a && !*b; }
static void stopw(int c) { wantexit = c; longjmp(wj, 1); }
static int curw, idfin;
static int r_phase(int a, int tree, const char *path);
static int r_action(int a, int tree, const char *path) {
    idfin = pos[a];
    if (check) { E(want, &nw, 'c', 0, tree, pos[a]); if (hsh(777, chk_w++, 5) < p_cerr) stopw(1); }
    if (typ[a] == 2) { int save = perr; perr = 0; tree = r_phase(a, tree, path); perr = save; }
    else { int r = ran_w[a]++; if (nw >= NT - 2) { over = 1; longjmp(wj, 1); } E(want, &nw, typ[a] ? 't' : 'p', a, tree, pos[a]);
        if (hsh(a, r, 1) < p_notify) note = 1;
        if (hsh(a, r, 3) < p_perr) perr = 1;
        int x = hsh(a, r, 2) < p_aerr;
        tree = hsh(a, r, 4) < p_new ? ++fresh_w : tree;
        if (x) stopw(1); }
    if (path && eqci(path, names[a])) { E(want, &nw, 'b', 0, tree, 0); stopw(0); }
    if (bpid && bpid == pos[a]) { E(want, &nw, 'b', 0, tree, 0); stopw(0); }
    return tree; }
static int r_phase(int a, int tree, const char *path) {
    if (gat[a]) { E(want, &nw, 'g', a, 0, pos[a]); if (!gateval(a, gate_w[a]++)) return tree; }
    if (path) { size_t l = strlen(names[a]); size_t i = 0; while (i < l && path[i] && tolower((unsigned char)path[i]) == tolower((unsigned char)names[a][i])) i++; if (i == l && path[l] == '.' && path[l + 1]) path = path + l + 1; }
    int outer = note, any = 0, rounds = 0;
    do { note = 0; for (int i = 0; i < nk[a]; i++) tree = r_action(kids[a][i], tree, path); rounds++; any |= note; } while (cyc[a] && note && rounds < maxc);
    if (perr) stopw(1);
    note = outer | any;
    return tree; }
static const char *evs(struct ev *e) { static char b[4][80]; static int k; char *o = b[k = (k + 1) % 4]; 
    const char *n = e->k == 'c' ? "tree check" : e->k == 'f' ? "free of the tree" : e->k == 'b' ? "breakpoint handler" : e->k == 'g' ? "gate of" : "action";
    snprintf(o, 80, "%s %s tree %d at id %d", n, e->k == 'p' || e->k == 't' || e->k == 'g' ? names[e->a] : "", e->tree, e->id); return o; }
int main(int c, char **v) {
    P = atoi(v[1]); vh_seed(atoi(v[2]) * 10 + P); long N = atol(v[3]), cases = 0;
    setvbuf(stdout, NULL, _IOLBF, 1 << 14); printf("AT start\n");
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); int first = 1; static char bpbuf[400];
    for (long r = 0; r < N && vh_fails < 3; r++) {
        vh_reset(); na = 0; gen_cyc = P == 4 ? 15 : P == 5 ? 55 : 25; gen_gate = P == 4 ? 35 : 10;
        mk(0); int total = number(0, 1) - 1;
        bseed = vh_rnd(); int dense = vh_n(4);
        p_notify = vh_n(3) == 0 ? 0 : dense == 0 ? 300 : dense == 1 ? 60 : 550; p_gate = 350; p_new = vh_n(3) ? 400 : 0;
        p_aerr = (P == 6 || P == 0) && vh_n(3) == 0 ? 40 : 0; p_perr = (P == 6 || P == 0) && vh_n(3) == 0 ? 60 : 0; p_cerr = (P == 6 || P == 0) && vh_n(4) == 0 ? 20 : 0;
        if (P == 5 && vh_n(12) == 0) p_notify = 1000;
        maxc = first ? 100 : p_notify == 1000 ? 1 + vh_n(4) : vh_n(3) ? 1 + vh_n(6) : 100; check = first ? 1 : vh_n(2);
        int pool = vh_n(2);
        for (int i = 0; i < na; i++) if (pool) { const char *nm[] = { "sub1", "sub2", "sUb1", "sub", "a", "b", "c", "sub12" }; strcpy(names[i], nm[hsh(i, 9, 9) % 8]); } else { const char *pre[] = { "a", "ab", "Ab", "phase", "x" }; sprintf(names[i], "%s%s%d", pre[hsh(i, 9, 9) % 5], hsh(i, 9, 8) % 3 ? "" : "_", i); }
        for (int i = 0; i < na; i++) { memset(&act[i], 0, sizeof act[i]); act[i].action_id = 1000 + i; act[i].name = names[i];
            if (typ[i] == 0) { act[i].type = CCN_ACTION_PASS; act[i].pass.pass_type = 1000 + i; }
            else if (typ[i] == 1) { act[i].type = CCN_ACTION_TRAVERSAL; act[i].traversal.trav_type = 1000 + i; }
            else { act[i].type = CCN_ACTION_PHASE; act[i].phase.is_cycle = cyc[i]; act[i].phase.gate_func = gat[i] ? gates[i] : NULL; for (int k = 0; k < nk[i]; k++) tab[i][k] = 1000 + kids[i][k]; tab[i][nk[i]] = CCNAC_ID_NULL; act[i].phase.action_table = tab[i]; } }
        /* breakpoint */
        bp = NULL; bpid = 0;
        if (P == 6 || P == 0) { int m = vh_n(5); int t = 1 + vh_n(na > 1 ? na - 1 : 1); if (na < 2) t = 0;
            if (m == 1) bpid = 1 + vh_n(total + 2);
            if (m >= 2 && m < 4) { int chain[20], n = 0; for (int q = t; ; q = par[q]) { chain[n++] = q; if (q == 0) break; }
                int from = n - 1 - vh_n(3); if (from < 0) from = 0; bpbuf[0] = 0; if (m == 3) from = n - 1;
                for (int q = from; q >= 0; q--) { strcat(bpbuf, names[chain[q]]); if (q) strcat(bpbuf, "."); }
                if (vh_n(8) == 0) strcat(bpbuf, "x"); if (vh_n(4) == 0) { char *q = bpbuf + vh_n(strlen(bpbuf)); if (*q != '.') *q = "12ab"[vh_n(4)]; }
                for (char *q = bpbuf; *q; q++) if (vh_n(2)) *q = toupper((unsigned char)*q); bp = bpbuf; } }
        vh_op("structure "); desc(0); vh_op("; max %d, tree check %d, notify %d/1000", maxc, check, p_notify); if (bp) vh_op(", breakpoint %s", bp); if (bpid) vh_op(", breakpoint id %d", bpid);
        /* reference */
        nw = ng = 0; memset(ran_g, 0, sizeof ran_g); memset(ran_w, 0, sizeof ran_w); memset(gate_g, 0, sizeof gate_g); memset(gate_w, 0, sizeof gate_w); chk_g = chk_w = fresh_g = fresh_w = 0; over = 0;
        aerr = perr = note = 0; wantexit = -1; gotexit = -1;
        if (!setjmp(wj)) { int t = r_action(0, 0, bp); E(want, &nw, 'f', 0, t, 0); }
        if (over || fresh_w > NT - 5) continue;
        if (!first) CCNsetCycles(maxc); CCNsetTreeCheck(check); CCNsetVerbosity(vh_n(4)); CCNsetBreakpoint(bp); CCNsetBreakpointWithID(bpid);
        if (first) { CCNsetTreeCheck(true); } first = 0;
        inrun = 1; if (!setjmp(jb)) CCNrun(TREE(0)); inrun = 0;
        cases++;
        int i; for (i = 0; i < ng && i < nw; i++) { struct ev *a = &got[i], *b = &want[i]; if (a->k != b->k || a->a != b->a || a->tree != b->tree || ((a->k == 'p' || a->k == 't' || a->k == 'c') && a->id != b->id)) break; }
        static char hist[3000]; hist[0] = 0; for (int q = i > 6 ? i - 6 : 0; q < i && strlen(hist) < 2500; q++) { strcat(hist, evs(&got[q])); strcat(hist, "; "); }
        if (i < ng && i < nw) vh_fail("step", "step %d is: %s, expected: %s (before: %s)", i, evs(&got[i]), evs(&want[i]), hist);
        else if (ng != nw) vh_fail(ng > nw ? "extra" : "missing", "%s at step %d: %s (before: %s)", ng > nw ? "unexpected" : "missing", i, ng > nw ? evs(&got[i]) : evs(&want[i]), hist);
        else if (gotexit != wantexit) vh_fail("exit", "run ended with %s, expected %s (after: %s)", gotexit < 0 ? "a normal return" : gotexit ? "failure" : "success exit", wantexit < 0 ? "a normal return" : wantexit ? "failure" : "success exit", hist);
    }
    printf("CASES %ld runs\n", cases);
    return vh_fails ? 1 : 0;
}
