/* C16: random histories on dependency graphs against a matrix and its transitive closure (Floyd-Warshall).
   argv: seed, rounds */
#include "common.h"
#include "frontend/attribute_scheduler/graph.h"
#include <palm/memory.h>
#include <stdlib.h>
#define MAXN 14
#define MAXG 3
typedef struct { graph_st *g; int n, closed; struct GRnode *v[MAXN]; int nd[MAXN], at[MAXN]; int e[MAXN][MAXN]; /* 1 + type */ } model;
static model ms[MAXG];
static long cases;
/* small numbers, many of which agree in the bits that are hashed */
static node_st *P(int i) { return (node_st *)(uintptr_t)(0x100000 + 32 * (uintptr_t)(i < 100 ? i / 2 + 32 * (i % 2) : 100 + (i - 100) / 3 + 32 * (i % 3))); }
static int idx(model *m, struct GRnode *p) { for (int i = 0; i < m->n; i++) if (m->v[i] == p) return i; return -1; }
static void tc(model *m, int t[MAXN][MAXN]) {
    for (int i = 0; i < m->n; i++) for (int j = 0; j < m->n; j++) t[i][j] = !!m->e[i][j];
    for (int k = 0; k < m->n; k++) for (int i = 0; i < m->n; i++) for (int j = 0; j < m->n; j++) t[i][j] |= t[i][k] && t[k][j]; }
/* everything that can be asked about the graph */
static void look(model *m, const char *op) {
    cases++;
    int c = 0;
    for (struct GRnode *p = m->g->nodes; p; p = p->next, c++) { int i = idx(m, p);
        if (i < 0 || c >= m->n || m->v[c] != p) { vh_fail(op, "the list of nodes is not the nodes added, in order"); return; }
        if (p->node != P(m->nd[i]) || p->attribute != P(m->at[i])) { vh_fail(op, "node %d changed", i); return; } }
    if (c != m->n) { vh_fail(op, "%d nodes listed, %d added", c, m->n); return; }
    for (int a = 0; a < 6; a++) for (int b = 0; b < 9; b++) { struct GRnode *w = NULL; for (int i = 0; i < m->n; i++) if (m->nd[i] == a && m->at[i] == 100 + b) w = m->v[i];
        if (GRlookup_node(m->g, P(a), P(100 + b)) != w) { vh_fail(op, "lookup of node %d attribute %d", a, b); return; } }
    int ne = 0, le = 0;
    for (int i = 0; i < m->n; i++) for (int j = 0; j < m->n; j++) { int t = m->e[i][j]; ne += !!t;
        struct GRedge *x = GRlookup_edge(m->g, m->v[i], m->v[j], true), *y = GRlookup_edge(m->g, m->v[i], m->v[j], false);
        if (!x != !t) { vh_fail(op, "edge %d -> %d is %s", i, j, t ? "missing" : "there, although it neither was added nor follows"); return; }
        if (!y != !(t && t - 1 != GRintravisit && t - 1 != GRintravisit_induced)) { vh_fail(op, "edge %d -> %d of type %d and intravisit edges left out", i, j, t - 1); return; }
        if (t && (x->first != m->v[i] || x->second != m->v[j] || (int)x->type != t - 1)) { vh_fail(op, "edge %d -> %d has wrong contents (type %d, expected %d)", i, j, x->type, t - 1); return; } }
    static int seen[MAXN][MAXN]; memset(seen, 0, sizeof seen);
    for (struct GRedge_list *l = m->g->edges; l; l = l->next, le++) { int i = idx(m, l->edge->first), j = idx(m, l->edge->second);
        if (i < 0 || j < 0 || !m->e[i][j] || seen[i][j]++) { vh_fail(op, "the list of edges has an entry %d -> %d that is not an edge, or is there twice", i, j); return; } }
    if (le != ne) { vh_fail(op, "%d edges listed, %d there", le, ne); return; }
    for (int i = 0; i < m->n; i++) for (int in = 0; in < 2; in++) { int got[MAXN] = {0};
        struct GRnode_list *l = in ? GRget_inter_node_dependencies(m->g, m->v[i]) : GRget_node_dependencies(m->g, m->v[i]), *nx;
        for (; l; l = nx) { nx = l->next; int d = idx(m, l->node); if (d >= 0) got[d]++; else got[i] = 9; MEMfree(l); }
        for (int d = 0; d < m->n; d++) { int t = m->e[d][i]; int want = t && t - 1 != GRintravisit && t - 1 != GRintravisit_induced && (!in || m->nd[d] == m->nd[i]);
            if (got[d] != want) { vh_fail(op, "dependency of %d on %d listed %d times%s", i, d, got[d], in ? " (inside a node)" : ""); return; } } } }
static void renew(model *m) { if (m->g) GRdelete(m->g); memset(m, 0, sizeof *m); m->g = GRnew(); }
int main(int c, char **v) {
    vh_seed(atoi(v[1])); long N = atol(v[2]);
    setvbuf(stdout, NULL, _IOLBF, 1 << 14); printf("AT start\n");
    for (long r = 0; r < N && !vh_fails; r++) {
        vh_reset();
        for (int i = 0; i < MAXG; i++) renew(&ms[i]);
        int len = 5 + vh_n(60), dag = vh_n(2), order[MAXN]; 
        for (int i = 0; i < MAXN; i++) order[i] = vh_n(1000);
        for (int s = 0; s < len && !vh_fails; s++) {
            int gi = vh_n(MAXG); model *m = &ms[gi];
            switch (vh_n(10)) {
            case 0: case 1: case 2: if (m->n < MAXN) { int a = vh_n(6), b = vh_n(9), dup = 0;
                for (int i = 0; i < m->n; i++) dup |= m->nd[i] == a && m->at[i] == 100 + b;
                if (dup) break;
                vh_op("graph %d: add node %d.%d -> %d", gi, a, b, m->n);
                struct GRnode *p = GRadd_node(m->g, P(a), P(100 + b)); m->v[m->n] = p; m->nd[m->n] = a; m->at[m->n++] = 100 + b;
                if (!p || idx(m, p) != m->n - 1) vh_fail("node", "no new node"); else look(m, "node"); }
                break;
            case 9: { struct GRedge_list *l = NULL, *nx; int t[MAXN][MAXN], cyc = 0; tc(m, t); for (int i = 0; i < m->n; i++) cyc |= t[i][i];
                vh_op("graph %d: close transitively", gi);
                struct GRerror e = GRclose_transitivity(m->g, &l); cases++;
                if ((e.type != GR_error_none) != cyc) { vh_fail("close", cyc ? "a cycle is not reported" : "a cycle is reported where there is none"); break; }
                static int rep[MAXN][MAXN]; memset(rep, 0, sizeof rep);
                for (; l; l = nx) { nx = l->next; int i = idx(m, l->edge->first), j = idx(m, l->edge->second); if (i >= 0 && j >= 0) rep[i][j]++; else vh_fail("close", "foreign dependency"); MEMfree(l->edge); MEMfree(l); }
                int ok[MAXN][MAXN];
                for (int i = 0; i < m->n; i++) for (int j = 0; j < m->n; j++) { ok[i][j] = 0;
                    struct GRedge *x = GRlookup_edge(m->g, m->v[i], m->v[j], true);
                    if (x && !t[i][j]) vh_fail("close", "edge %d -> %d does not follow from the added ones", i, j);
                    if (m->e[i][j] && !x) vh_fail("close", "edge %d -> %d is lost", i, j);
                    if (!cyc && t[i][j] && !x) vh_fail("close", "edge %d -> %d follows by transitivity, but is not there", i, j);
                    int want = x && !m->e[i][j] && m->nd[i] == m->nd[j];
                    if (rep[i][j] != want) vh_fail("close", "new dependency %d -> %d inside a node reported %d times, expected %d", i, j, rep[i][j], want);
                    if (x && !m->e[i][j]) m->e[i][j] = 1 + GRinduced; }
                if (cyc) { struct GRnode *a = e.data.cycle.n1, *b = e.data.cycle.n2; int i = idx(m, a), j = idx(m, b);
                    if (e.type != GR_error_cycle_induced || i < 0 || j < 0 || !m->e[i][j] || !m->e[j][i]) vh_fail("close", "the reported cycle %d, %d is not one", i, j);
                    else look(m, "close");
                    renew(m); }
                else look(m, "close"); } break;
            default: if (m->n) { int i = vh_n(m->n), j = vh_n(m->n), ty = vh_n(3) ? vh_n(2) : vh_n(4);
                if (dag && vh_n(40) && order[i] >= order[j]) { if (order[i] == order[j]) break; int q = i; i = j; j = q; }
                vh_op("graph %d: add edge %d -> %d type %d", gi, i, j, ty);
                struct GRerror e = GRadd_edge(m->g, m->v[i], m->v[j], ty);
                int bad = i == j || m->e[j][i];
                static const int T[] = {GR_error_cycle, GR_error_cycle_induced, GR_error_cycle_intravisit, GR_error_cycle_intravisit_induced};
                if ((e.type != GR_error_none) != bad) { vh_fail("edge", bad ? "a cycle of %d and %d is not reported" : "a cycle of %d and %d is reported where there is none", i, j); break; }
                if (bad && ((int)e.type != T[ty] || e.data.cycle.n1 != m->v[i] || e.data.cycle.n2 != m->v[j])) vh_fail("edge", "wrong error for %d -> %d", i, j);
                if (!bad && !m->e[i][j]) m->e[i][j] = 1 + ty;
                look(m, "edge"); } }
            if (!vh_n(6)) { int o = vh_n(MAXG); look(&ms[o], "other graph"); } } }
    for (int i = 0; i < MAXG; i++) if (ms[i].g) GRdelete(ms[i].g);
    printf("CASES %ld histories\n", cases);
    return vh_fails != 0; }
