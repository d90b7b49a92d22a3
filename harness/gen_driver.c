/* Generic driver over the code generated for one specification (tables: gen_meta.h).
 * usage: driver MODE SEED CASES ; every expectation comes from the shadow tree and the tables. */
#include "common.h"
#include "gen_meta.h"
#include "ccngen/ast.h"
#include "ccngen/enum.h"
#include "ccn/dynamic_core.h"
#include "ccn/phase_driver.h"
#include "palm/ctinfo.h"
#include "palm/memory.h"
#include <unistd.h>
#include <fcntl.h>

/* ---------------------------------------------------------------- allocation ledger */
extern void *__real_malloc(size_t); extern void __real_free(void *); extern void *__real_calloc(size_t, size_t); extern void *__real_realloc(void *, size_t);
#define LEDGER (1 << 16)
static void *led[LEDGER]; static size_t led_sz[LEDGER]; static long led_n; static int led_on, led_bad;
static size_t lh(void *p) { return ((uintptr_t)p >> 4) * 2654435761u % LEDGER; }
static void led_add(void *p, size_t n) { if (!led_on || !p) return; size_t h = lh(p); while (led[h] && led[h] != (void *)1) h = (h + 1) % LEDGER; led[h] = p; led_sz[h] = n; led_n++; }
static int led_find(void *p) { size_t h = lh(p), k = 0; while (led[h] && k++ < LEDGER) { if (led[h] == p) return (int)h; h = (h + 1) % LEDGER; } return -1; }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) memset(p, 0xA5, n); led_add(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); led_add(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { int h = led_on && q ? led_find(q) : -1; if (h >= 0) { led[h] = (void *)1; led_n--; } void *p = __real_realloc(q, n); led_add(p, n); return p; }
void __wrap_free(void *p) { if (led_on && p) { int h = led_find(p); if (h < 0) led_bad++; else { led[h] = (void *)1; led_n--; } } __real_free(p); }
static void led_reset(void) { memset(led, 0, sizeof led); led_n = 0; led_bad = 0; }
/* the block (if any) that contains p */
static void *led_block(void *p) { for (int i = 0; i < LEDGER; i++) if (led[i] && led[i] != (void *)1 && (char *)p >= (char *)led[i] && (char *)p < (char *)led[i] + led_sz[i]) return led[i]; return NULL; }

/* ---------------------------------------------------------------- shadow trees */
typedef struct sh { int k; struct sh *ch[16]; val at[24]; int lnk[24]; node_st *r; char *fn; uint32_t pos[4]; int id; } sh;
static sh *pool[4096]; static int npool;
static sh *sh_new(int k) { sh *s = __real_calloc(1, sizeof *s); s->k = k; s->id = npool; pool[npool++] = s; return s; }
static node_st *ext[6]; static int extk[6]; static int next_;
static char *xs(const char *a) { size_t n = strlen(a) + 1; char *p = __real_malloc(n); memcpy(p, a, n); return p; }
static void sh_reset(void) { for (int i = 0; i < npool; i++) { for (int j = 0; j < 24; j++) if (pool[i]->at[j].k == K_STR && pool[i]->at[j].s) __real_free(pool[i]->at[j].s); if (pool[i]->fn) __real_free(pool[i]->fn); __real_free(pool[i]); } npool = 0; }
static const char *words[] = { "", "a", "hello", "x y", "a much longer attribute value, with % signs %s %d", "NULL", "\x80\xff", "0" };
static val rnd_val(const struct am *a) {
    val v = { .k = a->k }; uint64_t r = vh_rnd();
    switch (a->k) {
    case K_BOOL: v.i = r & 1; break;
    case K_STR: v.s = (r % 4 == 0) ? NULL : xs(words[r / 7 % 8]); break;
    case K_F: v.d = (float)((int)(r % 2001) - 1000) / 8; break;
    case K_D: v.d = ((double)(int64_t)r) / 3; break;
    case K_U8: v.i = (uint8_t)r; break; case K_U16: v.i = (uint16_t)r; break; case K_U32: v.i = (uint32_t)r; break; case K_U64: v.i = (int64_t)r; break;
    case K_I8: v.i = (int8_t)r; break; case K_I16: v.i = (int16_t)r; break; case K_I32: v.i = (int32_t)r; break; case K_I64: v.i = (int64_t)r; break;
    case K_ENUM: v.i = r % (a->nenum + 1); break;
    case K_LINK: v.n = (r % 3 == 0 || !next_) ? NULL : ext[r / 5 % next_]; break;
    }
    return v; }
static int val_same(val a, val b, int deep) {
    if (a.k == K_STR) return deep ? ((!a.s) == (!b.s) && (!a.s || !strcmp(a.s, b.s))) : a.s == b.s;
    if (a.k == K_LINK) return a.n == b.n;
    if (a.k == K_F || a.k == K_D) return a.d == b.d;
    return a.i == b.i; }
static const char *val_str(val v) { static char b[4][80]; static int i; char *o = b[i++ & 3];
    if (v.k == K_STR) snprintf(o, 80, "\"%.40s\"", v.s ? v.s : "(NULL)"); else if (v.k == K_LINK) snprintf(o, 80, "%p", (void *)v.n); else if (v.k == K_F || v.k == K_D) snprintf(o, 80, "%g", v.d); else snprintf(o, 80, "%lld", (long long)v.i); return o; }
static int pick(uint32_t m) { int n = __builtin_popcount(m); if (!n) return -1; int r = (int)vh_n(n); for (int i = 0;; i++) if (m >> i & 1) { if (!r--) return i; } }
static int budget;
/* random tree; conform: only permitted child types */
static sh *grow(int k, int depth, int pnull, int conform) {
    sh *s = sh_new(k); const struct nm *m = &g_nodes[k]; budget--;
    for (int i = 0; i < m->nc; i++) {
        if (depth <= 0 || budget <= 0 || (int)vh_n(100) < pnull) continue;
        int ck = conform || vh_n(8) ? pick(m->c[i].allowed) : (int)vh_n(g_nn);
        if (ck >= 0) s->ch[i] = grow(ck, depth - 1, pnull, conform); }
    for (int i = 0; i < m->na; i++) s->at[i] = rnd_val(&m->a[i]);
    if (vh_n(2)) { s->fn = xs(words[vh_n(8)]); }
    for (int i = 0; i < 4; i++) s->pos[i] = vh_n(3) ? (uint32_t)vh_n(1000) + i * 1000 : 0;
    return s; }
static char *dupw(const char *s) { if (!s) return NULL; size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
static void dump(sh *s, int d) { if (!s || d > 6) { vh_op("-"); return; } vh_op("%s(", g_nodes[s->k].name); for (int i = 0; i < g_nodes[s->k].nc; i++) { vh_op("%s=", g_nodes[s->k].c[i].name); dump(s->ch[i], d + 1); vh_op(" "); } vh_op(")"); }

static node_st *realize(sh *s, int chk);
static void check_node(sh *s, node_st *n, const char *key, const char *when);
/* build the real node; chk: compare the freshly constructed node with what the constructor documents */
static node_st *realize(sh *s, int chk) {
    if (!s) return NULL;
    const struct nm *m = &g_nodes[s->k]; node_st *c[16] = { 0 }; val a[24];
    for (int i = 0; i < m->nc; i++) c[i] = realize(s->ch[i], chk);
    for (int i = 0; i < m->na; i++) { a[i] = s->at[i]; if (a[i].k == K_STR) a[i].s = dupw(a[i].s); }
    node_st *n = G_mk(s->k, c, a);
    if (chk) {
        if (!n) { vh_fail("ctor", "constructor of %s returned NULL", m->name); return NULL; }
        if ((int)NODE_TYPE(n) != m->nt) vh_fail("ctor-type", "new %s has type %d, expected %d", m->name, (int)NODE_TYPE(n), m->nt);
        if (NODE_NUMCHILDREN(n) != m->nc) vh_fail("ctor-numchildren", "new %s has %ld children, expected %d", m->name, (long)NODE_NUMCHILDREN(n), m->nc);
        if (NODE_BLINE(n) || NODE_ELINE(n) || NODE_BCOL(n) || NODE_ECOL(n) || NODE_FILENAME(n)) vh_fail("ctor-pos", "new %s has a position or file name", m->name);
        for (int i = 0; i < m->nc; i++) {
            if (*G_ch(s->k, n, i) != (m->c[i].ctor ? c[i] : NULL)) vh_fail("ctor-child", "child %s of new %s is %p, expected %p", m->c[i].name, m->name, (void *)*G_ch(s->k, n, i), (void *)(m->c[i].ctor ? c[i] : NULL));
            if (NODE_CHILDREN(n) + i != G_ch(s->k, n, i)) vh_fail("ctor-children", "child %d of new %s is not child slot %d", i, m->name, i); }
        for (int i = 0; i < m->na; i++) { val z = { .k = m->a[i].k }, g = G_get(s->k, n, i), e = m->a[i].ctor ? a[i] : z;
            if (!val_same(e, g, 0)) vh_fail("ctor-attr", "attribute %s of new %s is %s, expected %s", m->a[i].name, m->name, val_str(g), val_str(e)); }
        void *blk = led_block(n), *db = (m->nc || m->na) ? led_block(G_data(s->k, n)) : NULL;
        if (led_on && (blk != (void *)n || ((m->nc || m->na) && (!db || db == blk)))) vh_fail("ctor-memory", "new %s does not have memory of its own", m->name);
    }
    for (int i = 0; i < m->nc; i++) if (!m->c[i].ctor) *G_ch(s->k, n, i) = c[i];
    for (int i = 0; i < m->na; i++) if (!m->a[i].ctor) G_set(s->k, n, i, a[i]);
    NODE_FILENAME(n) = dupw(s->fn); NODE_BLINE(n) = s->pos[0]; NODE_ELINE(n) = s->pos[1]; NODE_BCOL(n) = s->pos[2]; NODE_ECOL(n) = s->pos[3];
    s->r = n;
    if (chk) check_node(s, n, "access", "after construction and assignment");
    return n; }
/* node n carries exactly what s says (children compared with the recorded real ones) */
static void check_node(sh *s, node_st *n, const char *key, const char *when) {
    const struct nm *m = &g_nodes[s->k];
    if ((int)NODE_TYPE(n) != m->nt) { vh_fail(key, "%s: %s has type %d", when, m->name, (int)NODE_TYPE(n)); return; }
    for (int i = 0; i < m->nc; i++) { node_st *e = s->ch[i] ? s->ch[i]->r : NULL; if (*G_ch(s->k, n, i) != e) vh_fail(key, "%s: child %s of %s changed", when, m->c[i].name, m->name); }
    for (int i = 0; i < m->na; i++) { val g = G_get(s->k, n, i); if (!val_same(s->at[i], g, 1)) vh_fail(key, "%s: attribute %s of %s is %s, expected %s", when, m->a[i].name, m->name, val_str(g), val_str(s->at[i])); }
    if (NODE_BLINE(n) != s->pos[0] || NODE_ELINE(n) != s->pos[1] || NODE_BCOL(n) != s->pos[2] || NODE_ECOL(n) != s->pos[3]) vh_fail(key, "%s: position of %s is %u-%u:%u-%u, expected %u-%u:%u-%u", when, m->name, NODE_BLINE(n), NODE_ELINE(n), NODE_BCOL(n), NODE_ECOL(n), s->pos[0], s->pos[1], s->pos[2], s->pos[3]);
    if ((!NODE_FILENAME(n)) != (!s->fn) || (s->fn && strcmp(NODE_FILENAME(n), s->fn))) vh_fail(key, "%s: file name of %s is wrong", when, m->name);
    if (NODE_NUMCHILDREN(n) != m->nc) vh_fail(key, "%s: number of children of %s", when, m->name); }
static void check_tree(sh *s, const char *key, const char *when) { if (!s) return; check_node(s, s->r, key, when); for (int i = 0; i < g_nodes[s->k].nc; i++) check_tree(s->ch[i], key, when); }

static void externals(void) { next_ = 0; for (int i = 0; i < 4; i++) { int k = (int)vh_n(g_nn); int b = budget; budget = 1; sh *s = grow(k, 0, 100, 1); budget = b; ext[next_] = realize(s, 0); extk[next_] = npool - 1; next_++; } }
static void ext_check(const char *key, const char *when) { for (int i = 0; i < next_; i++) check_node(pool[extk[i]], ext[i], key, when); }
static void ext_free(void) { for (int i = 0; i < next_; i++) CCNfree(ext[i]); next_ = 0; }

/* ---------------------------------------------------------------- stubs */
static size_t cur_action;
#ifndef REAL_PD
size_t CCNgetCurrentActionId() { return cur_action; }
#endif
node_st *BreakpointHandler(node_st *n) { return n; }
static int save_err = -1;
static void quiet(void) { fflush(stderr); save_err = dup(2); int f = open("/dev/null", O_WRONLY); dup2(f, 2); close(f); }
static void loud(void) { fflush(stderr); dup2(save_err, 2); close(save_err); }

/* ---------------------------------------------------------------- traversal log */
enum ev { E_IN, E_OUT, E_INIT, E_FINI, E_PASS, E_GATE };
struct rec { enum ev e; int t, id; size_t a; };
#define MAXLOG 200000
static struct rec got[MAXLOG], want[MAXLOG]; static int ngot, nwant;
static void put(enum ev e, int t, int id, size_t a) { if (ngot < MAXLOG) got[ngot++] = (struct rec){ e, t, id, a }; }
static void exp_(enum ev e, int t, int id, size_t a) { if (nwant < MAXLOG) want[nwant++] = (struct rec){ e, t, id, a }; }
static const char *rec_str(struct rec r) { static char b[2][120]; static int i; char *o = b[i++ & 1]; const char *n[] = { "enter", "leave", "init", "fini", "pass", "gate" };
    snprintf(o, 120, "%s %s node#%d(%s) action %zu", n[r.e], r.e != E_PASS && r.e != E_GATE && r.t >= 0 && r.t < g_nt ? g_travs[r.t].name : "-", r.id, r.id >= 0 && r.id < npool && r.e <= E_OUT ? g_nodes[pool[r.id]->k].name : "-", r.a); return o; }
static int log_same(const char *key) {
    for (int i = 0; i < ngot || i < nwant; i++) {
        if (i >= ngot) { vh_fail(key, "step %d: expected %s, but nothing more happened", i, rec_str(want[i])); return 0; }
        if (i >= nwant) { vh_fail(key, "step %d: unexpected %s", i, rec_str(got[i])); return 0; }
        if (memcmp(&got[i].e, &want[i].e, sizeof(enum ev)) || got[i].t != want[i].t || got[i].id != want[i].id || got[i].a != want[i].a) { vh_fail(key, "step %d: %s, expected %s", i, rec_str(got[i]), rec_str(want[i])); return 0; } }
    return 1; }
static sh *by_real(node_st *n) { for (int i = npool - 1; i >= 0; i--) if (pool[i]->r == n) return pool[i]; return NULL; }
/* what a handler does is a function of (case salt, nesting, traversal, node) */
static uint32_t salt; static int nest, max_nest, style; static int e2e;
static uint32_t hsh(uint32_t a, uint32_t b, uint32_t c) { uint32_t h = salt ^ (a * 0x9E3779B1u) ^ (b * 0x85EBCA77u) ^ (c * 0xC2B2AE3Du); h ^= h >> 15; h *= 0x2C1B3C6Du; h ^= h >> 12; h *= 0x297A2D39u; h ^= h >> 15; return h; }
static int nested_of(int t, int id) { if (nest >= max_nest || g_nt == 0) return -1; uint32_t h = hsh(nest + 1, t, id); return h % 5 == 0 ? (int)(h / 5 % g_nt) : -1; }
static int skips(int t, int id) { return style == 2 && hsh(77 + nest, t, id) % 4 == 0; }
static int replaces(int t, int id) { return style == 3 && nest == 0 && hsh(99, t, id) % 5 == 0; }
static int reploff; static sh *repl[4096];
static int td_val[64], td_depth;
node_st *h_handler(int t, int k, node_st *n) {
    sh *s = by_real(n); int id = s ? s->id : -1;
    put(E_IN, t, id, e2e ? CCNgetCurrentActionId() : 0);
    if ((int)NODE_TYPE(n) != g_nodes[k].nt) vh_fail("dispatch", "handler of %s called with a node of type %d", g_nodes[k].name, (int)NODE_TYPE(n));
    if (TRAVgetCurrent() == NULL || (int)TRAVgetCurrent()->trav_type != g_travs[t].tt) { vh_fail("current", "current traversal is not %s inside its handler", g_travs[t].name); return n; }
    int x = (int)(hsh(t, nest, 3) & 0xffff);
    if (g_travs[t].data && !G_td_check(t, x)) vh_fail("travdata", "data of %s changed under a nested traversal or is shared", g_travs[t].name);
    ccn_trav_st *cur = TRAVgetCurrent();
    int nt = s ? nested_of(t, id) : -1;
    if (nt >= 0) { nest++; node_st *r = TRAVstart(n, g_travs[nt].tt); nest--; if (r != n) vh_fail("result", "nested traversal returned another node"); }
    if (TRAVgetCurrent() != cur) vh_fail("restore", "the enclosing traversal is not restored after a nested one");
    if (g_travs[t].data && !G_td_check(t, x)) vh_fail("travdata", "data of %s changed under a nested traversal", g_travs[t].name);
    if (s && !skips(t, id)) {
        if (style == 1 && hsh(5, t, id) % 2) { for (int i = g_nodes[k].nc; i-- > 0;) G_travchild(k, n, i); }
        else { node_st *r = TRAVchildren(n); if (r != n) vh_fail("children-result", "TRAVchildren did not return its node"); } }
    put(E_OUT, t, id, e2e ? CCNgetCurrentActionId() : 0);
    if (s && replaces(t, id)) return repl[id] ? repl[id]->r : NULL;
    return n; }
void h_init(int t) { put(E_INIT, t, -1, 0);
    if (TRAVgetCurrent() == NULL || (int)TRAVgetCurrent()->trav_type != g_travs[t].tt) vh_fail("current", "current traversal is not %s inside its init", g_travs[t].name);
    else if (!G_td_zero(t)) vh_fail("travdata-init", "data of %s does not start out zero", g_travs[t].name);
    else G_td_fill(t, (int)(hsh(t, nest, 3) & 0xffff)); }
void h_fini(int t) { put(E_FINI, t, -1, 0); if (g_travs[t].data && !G_td_check(t, (int)(hsh(t, nest, 3) & 0xffff))) vh_fail("travdata", "data of %s is not intact at its release", g_travs[t].name); }

static void want_trav(int t, sh *s);
static void want_node(int t, sh *s) {
    if (!s) return;
    const struct nm *m = &g_nodes[s->k];
    if (!(g_travs[t].handled >> s->k & 1)) { for (int i = 0; i < m->nc; i++) want_node(t, s->ch[i]); return; }
    exp_(E_IN, t, s->id, cur_action);
    int nt = nested_of(t, s->id);
    if (nt >= 0) { nest++; want_trav(nt, s); nest--; }
    if (!skips(t, s->id)) {
        if (style == 1 && hsh(5, t, s->id) % 2) for (int i = m->nc; i-- > 0;) want_node(t, s->ch[i]);
        else for (int i = 0; i < m->nc; i++) want_node(t, s->ch[i]); }
    exp_(E_OUT, t, s->id, cur_action); }
static void want_trav(int t, sh *s) { if (g_travs[t].data) exp_(E_INIT, t, -1, 0); want_node(t, s); if (g_travs[t].data) exp_(E_FINI, t, -1, 0); }
/* tree after a traversal with replacing handlers */
static sh *want_repl(int t, sh *s) {
    if (!s) return NULL;
    for (int i = 0; i < g_nodes[s->k].nc; i++) s->ch[i] = want_repl(t, s->ch[i]);
    if ((g_travs[t].handled >> s->k & 1) && replaces(t, s->id)) return repl[s->id];
    return s; }

/* ---------------------------------------------------------------- oracle of the tree check */
static int in_iv(const struct lt *l, int a) { return (l->b < 0 || a >= l->b) && (l->e < 0 || a < l->e); }
static int lt_bad(const struct lt *l, int a, int present) {
    switch (l->k) { case L_MAND: return in_iv(l, a) && !present; case L_DIS: return in_iv(l, a) && present;
    case L_OPT: return !in_iv(l, a) && !present; case L_ALL: return !in_iv(l, a) && present; } return 0; }
static int node_bad(sh *s, int a) {
    const struct nm *m = &g_nodes[s->k]; int bad = 0;
    for (int i = 0; i < m->nl; i++) bad += lt_bad(&m->l[i], a, 1);
    for (int i = 0; i < m->nc; i++) { if (s->ch[i] && !(m->c[i].allowed >> s->ch[i]->k & 1)) bad++;
        for (int j = 0; j < m->c[i].nl; j++) bad += lt_bad(&m->c[i].l[j], a, s->ch[i] != NULL); }
    for (int i = 0; i < m->na; i++) for (int j = 0; j < m->a[i].nl; j++) bad += lt_bad(&m->a[i].l[j], a, m->a[i].k == K_STR ? s->at[i].s != NULL : s->at[i].n != NULL);
    return bad; }
static int tree_bad(sh *s, int a) { if (!s) return 0; int b = node_bad(s, a); for (int i = 0; i < g_nodes[s->k].nc; i++) b += tree_bad(s->ch[i], a); return b; }
static int node_ok_at(int k, int a) { for (int i = 0; i < g_nodes[k].nl; i++) if (lt_bad(&g_nodes[k].l[i], a, 1)) return 0; return 1; }
/* a tree meant to be consistent at action a */
static sh *grow_ok(int k, int depth, int a) {
    sh *s = grow(k, 0, 100, 1); const struct nm *m = &g_nodes[k];
    for (int i = 0; i < m->na; i++) if (m->a[i].k == K_STR || m->a[i].k == K_LINK) { int must = 0, no = 0;
        for (int j = 0; j < m->a[i].nl; j++) { must |= lt_bad(&m->a[i].l[j], a, 0); no |= lt_bad(&m->a[i].l[j], a, 1); }
        if (no) { if (s->at[i].k == K_STR && s->at[i].s) __real_free(s->at[i].s); s->at[i].s = NULL; s->at[i].n = NULL; }
        else if (must) { if (m->a[i].k == K_STR) { if (!s->at[i].s) s->at[i].s = xs("m"); } else if (next_) s->at[i].n = ext[0]; } }
    for (int i = 0; i < m->nc; i++) { int must = 0, no = 0;
        for (int j = 0; j < m->c[i].nl; j++) { must |= lt_bad(&m->c[i].l[j], a, 0); no |= lt_bad(&m->c[i].l[j], a, 1); }
        if (no || (!must && (depth <= 0 || budget <= 0 || vh_n(2)))) continue;
        if (depth < -3) continue;
        uint32_t al = 0; for (int q = 0; q < g_nn; q++) if ((m->c[i].allowed >> q & 1) && node_ok_at(q, a)) al |= 1u << q;
        if (!al) al = m->c[i].allowed; if (!al) continue;
        s->ch[i] = grow_ok(pick(al), depth - 1, a); }
    return s; }
static int only_lt;
static void perturb(sh *s) {
    sh *v = pool[(int)vh_n(npool)]; for (int tries = 0; tries < 20; tries++) { v = pool[(int)vh_n(npool)]; if (v->id >= s->id) break; }
    if (v->id < s->id) v = s;
    const struct nm *m = &g_nodes[v->k];
    int c = m->nc + m->na; if (!c) return; int i = (int)vh_n(c);
    if (i < m->nc) { if (v->ch[i] && vh_n(2)) v->ch[i] = NULL; else v->ch[i] = grow(vh_n(3) || only_lt ? pick(m->c[i].allowed) : (int)vh_n(g_nn), 0, 100, 1); }
    else { i -= m->nc; if (m->a[i].k == K_STR) { if (v->at[i].s) { __real_free(v->at[i].s); v->at[i].s = NULL; } else v->at[i].s = xs("p"); } else if (m->a[i].k == K_LINK) v->at[i].n = v->at[i].n ? NULL : ext[0]; } }

/* ---------------------------------------------------------------- modes */
static int same_copy(sh *s, node_st *c, const char *key) {
    if (!s) { if (c) vh_fail(key, "an absent child was copied to a node"); return c == NULL; }
    const struct nm *m = &g_nodes[s->k];
    if (!c) { vh_fail(key, "%s was not copied", m->name); return 0; }
    if ((int)NODE_TYPE(c) != m->nt) { vh_fail(key, "copy of %s has type %d", m->name, (int)NODE_TYPE(c)); return 0; }
    if (by_real(c)) { vh_fail(key, "copy of %s is a node of the original", m->name); return 0; }
    if ((m->nc || m->na) && G_data(s->k, c) == G_data(s->k, s->r)) { vh_fail(key, "copy of %s shares its data", m->name); return 0; }
    for (int i = 0; i < m->na; i++) { val g = G_get(s->k, c, i);
        if (m->a[i].k == K_STR && g.s && g.s == G_get(s->k, s->r, i).s) vh_fail(key, "string %s of %s is shared with the copy", m->a[i].name, m->name);
        if (!val_same(s->at[i], g, 1)) vh_fail(key, "attribute %s of the copy of %s is %s, expected %s", m->a[i].name, m->name, val_str(g), val_str(s->at[i])); }
    if (NODE_BLINE(c) != s->pos[0] || NODE_ELINE(c) != s->pos[1] || NODE_BCOL(c) != s->pos[2] || NODE_ECOL(c) != s->pos[3]) vh_fail(key, "position of the copy of %s is %u-%u:%u-%u, expected %u-%u:%u-%u", m->name, NODE_BLINE(c), NODE_ELINE(c), NODE_BCOL(c), NODE_ECOL(c), s->pos[0], s->pos[1], s->pos[2], s->pos[3]);
    if ((!NODE_FILENAME(c)) != (!s->fn) || (s->fn && strcmp(NODE_FILENAME(c), s->fn))) vh_fail(key, "file name of the copy of %s is wrong", m->name);
    else if (s->fn && NODE_FILENAME(c) == NODE_FILENAME(s->r)) vh_fail(key, "file name of %s is shared with the copy", m->name);
    if (NODE_NUMCHILDREN(c) != m->nc) vh_fail(key, "number of children of the copy of %s", m->name);
    for (int i = 0; i < m->nc; i++) { if (!same_copy(s->ch[i], *G_ch(s->k, c, i), key)) return 0; }
    return 1; }
static void mutate(int k, node_st *n, int d) { if (!n || d > 12) return; for (int i = 0; i < g_nodes[k].na; i++) { val g = G_get(k, n, i); if (g.k == K_STR) { if (g.s && g.s[0]) g.s[0] = '#'; } else if (g.k == K_LINK) { g.n = NULL; G_set(k, n, i, g); } else { g.i = !g.i; g.d = g.d + 1; G_set(k, n, i, g); } }
    NODE_BLINE(n)++; NODE_ECOL(n) += 7; if (NODE_FILENAME(n) && NODE_FILENAME(n)[0]) NODE_FILENAME(n)[0] = '#';
    for (int i = 0; i < g_nodes[k].nc; i++) { node_st *c = *G_ch(k, n, i); if (c) for (int q = 0; q < g_nn; q++) if (g_nodes[q].nt == (int)NODE_TYPE(c)) mutate(q, c, d + 1); } }

static void m_ctor(void) {
    externals(); budget = 12;
    sh *s = grow((int)vh_n(g_nn), 3, 30, 1); vh_reset(); dump(s, 0);
    realize(s, 1); check_tree(s, "access", "after building the tree");
    /* one field at a time: every other field keeps its value */
    for (int r = 0; r < 4; r++) { sh *v = s; for (int d = 0; d < 3; d++) { sh *w = g_nodes[v->k].nc ? v->ch[vh_n(g_nodes[v->k].nc)] : NULL; if (w) v = w; }
        const struct nm *m = &g_nodes[v->k]; if (!m->na) continue; int i = (int)vh_n(m->na); val nv = rnd_val(&m->a[i]);
        val old = G_get(v->k, v->r, i); if (old.k == K_STR && old.s) free(old.s);
        val st = nv; if (st.k == K_STR) st.s = dupw(nv.s);
        G_set(v->k, v->r, i, st); if (v->at[i].k == K_STR && v->at[i].s) __real_free(v->at[i].s); v->at[i] = nv; check_tree(s, "access", "after assigning one attribute"); }
    CCNfree(s->r); ext_free(); sh_reset(); }
static void m_copy(void) {
    led_reset(); led_on = 1; externals(); budget = 25; int first = npool;
    sh *s = grow((int)vh_n(g_nn), 4, 25, vh_n(4) != 0); vh_reset(); dump(s, 0); realize(s, 0);
    (void)first;
    if (vh_n(20) == 0 && CCNcopy(NULL) != NULL) vh_fail("copy-null", "copying NULL does not give NULL");
    sh *from = s; if (vh_n(3) == 0) for (int i = 0; i < g_nodes[s->k].nc; i++) if (s->ch[i]) { from = s->ch[i]; break; }
    node_st *c = CCNcopy(from->r);
    same_copy(from, c, "copy"); check_tree(s, "copy-original", "after copying");
    if (TRAVgetCurrent()) vh_fail("copy-stack", "the traversal stack is not empty after copying");
    ext_check("copy-original", "after copying (linked nodes)");
    switch (vh_n(3)) {
    case 0: mutate(from->k, c, 0); check_tree(s, "copy-shared", "after changing the copy"); CCNfree(c); check_tree(s, "copy-shared", "after freeing the copy"); CCNfree(s->r); break;
    case 1: CCNfree(s->r); same_copy(NULL, NULL, "copy"); { /* the copy is still complete */ for (int i = 0; i < npool; i++) if (pool[i]->r && pool[i]->id >= from->id) pool[i]->r = NULL; }
        { sh *q = from; sh *st[512]; node_st *sn[512]; int n = 0; st[n] = q; sn[n++] = c; while (n) { q = st[--n]; node_st *x = sn[n]; q->r = x; for (int i = 0; i < g_nodes[q->k].nc; i++) if (q->ch[i] && n < 500) { st[n] = q->ch[i]; sn[n++] = *G_ch(q->k, x, i); } } }
        if (!vh_fails) check_tree(from, "copy-shared", "copy after freeing the original"); CCNfree(c); break;
    default: { node_st *c2 = CCNcopy(c); CCNfree(c); same_copy(from, c2, "copy"); CCNfree(c2); CCNfree(s->r); } }
    ext_free(); led_on = 0;
    if (led_bad) vh_fail("copy-free", "a block was released that was not allocated");
    sh_reset(); }
static void m_free(void) {
    led_reset(); led_on = 1; externals(); long base = led_n; budget = 30;
    int dep = (int)vh_n(6);
    sh *s = grow((int)vh_n(g_nn), dep, (int)vh_n(80), vh_n(3) != 0); vh_reset(); dump(s, 0); realize(s, 0);
    if (vh_n(10) == 0 && CCNfree(NULL) != NULL) vh_fail("free-null", "freeing NULL does not give NULL");
    int cp = vh_n(3) == 0; node_st *c = cp ? CCNcopy(s->r) : NULL;
    long before = led_n; (void)before;
    node_st *r = CCNfree(s->r); if (r) vh_fail("free-result", "freeing does not give NULL");
    if (cp) { if (CCNfree(c)) vh_fail("free-result", "freeing does not give NULL"); }
    if (led_bad) vh_fail("free-foreign", "%d blocks were released that were not live", led_bad);
    if (led_n > base) vh_fail("free-leak", "%ld blocks of the tree were not released", led_n - base);
    if (led_n < base) vh_fail("free-linked", "%ld blocks that do not belong to the tree were released", base - led_n);
    if (TRAVgetCurrent()) vh_fail("free-stack", "the traversal stack is not empty");
    if (led_n == base) { ext_check("free-linked", "after freeing a tree that links to it"); ext_free(); if (led_n != 0) vh_fail("free-leak", "%ld blocks of single nodes were not released", led_n); }
    led_on = 0; sh_reset(); }
static void m_trav(void) {
    if (!g_nt) return;
    externals(); budget = 40; int t = (int)vh_n(g_nt);
    sh *s = grow((int)vh_n(g_nn), 2 + (int)vh_n(6), (int)vh_n(60), 1); vh_reset(); vh_op("%s on ", g_travs[t].name); dump(s, 0); realize(s, 0);
    salt = (uint32_t)vh_rnd(); nest = 0; max_nest = (int)vh_n(3); style = (int)vh_n(4); if (style == 3) max_nest = 0;
    int nrep = npool; for (int i = 0; i < nrep; i++) { repl[i] = NULL; if (style == 3 && pool[i]->id >= s->id && replaces(t, i) && hsh(98, t, i) % 3) { budget = 1; repl[i] = grow(pool[i]->k, 0, 100, 1); realize(repl[i], 0); } }
    ngot = nwant = 0; cur_action = 0; e2e = 0;
    /* now and then two adjacent slots hold the same node */
    sh *shn = NULL, *shold = NULL; int shi = 0;
    if (style != 3 && vh_n(3) == 0) for (int i = 0; i < nrep && !shn; i++) if (pool[i]->id >= s->id) for (int j = 0; j + 1 < g_nodes[pool[i]->k].nc; j++) if (pool[i]->ch[j] && pool[i]->ch[j + 1]) {
        shn = pool[i]; shi = j + 1; shold = shn->ch[shi]; shn->ch[shi] = shn->ch[j]; *G_ch(shn->k, shn->r, shi) = shn->ch[j]->r; vh_op(" (slot %d of %s holds the node of slot %d)", shi, g_nodes[shn->k].name, j); break; }
    node_st *r = TRAVstart(s->r, g_travs[t].tt);
    want_trav(t, s);
    int ok = log_same("order");
    if (TRAVgetCurrent()) vh_fail("stack", "the traversal stack is not empty after the traversal");
    if (style != 3) { if (r != s->r) vh_fail("result", "the traversal did not return the start node"); check_tree(s, "tree", "after a traversal that keeps the tree"); if (shn) { shn->ch[shi] = shold; *G_ch(shn->k, shn->r, shi) = shold->r; } CCNfree(s->r); }
    else if (ok) { sh *e = want_repl(t, s); if (r != (e ? e->r : NULL)) vh_fail("result", "the traversal did not return what the handler of the start node returned"); check_tree(e, "slots", "after a traversal that replaces nodes"); }
    ext_free(); sh_reset(); }
static void m_check(void) {
    externals(); budget = 10; int a = 1 + (int)vh_n(g_nactions); int n0 = npool;
    int k = (int)vh_n(g_nn); for (int i = 0; i < 6 && !node_ok_at(k, a); i++) k = (int)vh_n(g_nn);
    sh *s = grow_ok(k, (int)vh_n(3), a); (void)n0;
    int np = (int)vh_n(3); for (int i = 0; i < np; i++) perturb(s);
    vh_reset(); dump(s, 0); realize(s, 0);
    led_on = 0;
    for (int i = 1; i <= g_nactions; i++) {
        if (g_nactions > 14 && i != a && vh_n(3)) continue;
        cur_action = i; int e0 = CTIgetErrors();
        quiet(); node_st *r = TRAVstart(s->r, TRAV_check); loud();
        int e = CTIgetErrors() - e0, w = tree_bad(s, i);
        if (r != s->r) vh_fail("check-result", "the check returned another node");
        if ((e > 0) != (w > 0)) vh_fail(w ? "check-missed" : "check-false", "at action %d the check reported %d errors, the specification is violated %d times", i, e, w);
    }
    check_tree(s, "check-modified", "after checking"); ext_check("check-modified", "after checking");
    CCNfree(s->r); ext_free(); sh_reset(); }
/* one node with one child of every type / one bare node under every traversal: membership in the sets */
static void m_sets(void) {
    cur_action = 1; e2e = 0; salt = 1; nest = max_nest = style = 0;
    for (int k = 0; k < g_nn; k++) for (int i = 0; i < g_nodes[k].nc; i++) for (int q = 0; q < g_nn; q++) {
        budget = 1; sh *s = grow(k, 0, 100, 1); budget = 1; s->ch[i] = grow(q, 0, 100, 1); realize(s, 0);
        vh_reset(); vh_op("child %s of %s is a %s", g_nodes[k].c[i].name, g_nodes[k].name, g_nodes[q].name);
        int e0 = CTIgetErrors(); quiet(); TRAVstart(s->r, TRAV_check); loud(); int e = CTIgetErrors() - e0, in = g_nodes[k].c[i].allowed >> q & 1;
        if ((e > 0) == in) vh_fail("member", "%s is %sa member of the type of child %s of %s, but the check %s it", g_nodes[q].name, in ? "" : "not ", g_nodes[k].c[i].name, g_nodes[k].name, e ? "rejects" : "accepts");
        CCNfree(s->r); sh_reset(); }
    for (int t = 0; t < g_nt; t++) for (int q = 0; q < g_nn; q++) {
        budget = 1; sh *s = grow(q, 0, 100, 1); realize(s, 0); ngot = 0; TRAVstart(s->r, g_travs[t].tt); int n = 0; for (int i = 0; i < ngot; i++) n += got[i].e == E_IN;
        int in = g_travs[t].handled >> q & 1; vh_reset(); vh_op("traversal %s on %s", g_travs[t].name, g_nodes[q].name);
        if (n != in) vh_fail("handled", "%s is %sin the nodes of traversal %s, but %d handlers ran", g_nodes[q].name, in ? "" : "not ", g_travs[t].name, n);
        CCNfree(s->r); sh_reset(); } }
/* whole compilation with the generated action tables and the real phase driver */
static int pcount[64]; static const char *pname[64]; static int npn; static sh *e2e_root; static int gate_mask, notify_salt, notifies;
static int pidx(const char *f) { for (int i = 0; i < npn; i++) if (!strcmp(pname[i], f)) return i; pname[npn] = f; return npn++; }
static int gate_open(const char *g) { return gate_mask >> (pidx(g) & 15) & 1; }
static int want_notify(const char *f, int n) { return n < 12 && (hsh(notify_salt, pidx(f), n) % 3 == 0); }
node_st *h_pass(const char *f, node_st *n) { int p = pidx(f);
#ifdef REAL_PD
    put(E_PASS, p, by_real(n) ? by_real(n)->id : -1, CCNgetCurrentActionId()); if (want_notify(f, pcount[p]++)) CCNcycleNotify();
#endif
    return n; }
bool h_gate(const char *g) { put(E_GATE, pidx(g), -1, 0); return gate_open(g); }
#ifdef REAL_PD
static int wfix; static int wcount[64];
static void want_act(int *i);
static void want_list(int first, int last) { for (int i = first; i < last;) { want_act(&i); } }
static void want_act(int *ip) { const struct act *a = &g_acts[*ip]; int i = *ip; cur_action = a->id; *ip = a->end - 1;
    if (a->k == A_PASS) { int p = pidx(a->fn); exp_(E_PASS, p, e2e_root->id, a->id); if (want_notify(a->fn, wcount[p]++)) wfix = 0; return; }
    if (a->k == A_TRAV) { want_trav(a->t, e2e_root); return; }
    if (a->gate) { exp_(E_GATE, pidx(a->gate), -1, 0); if (!gate_open(a->gate)) return; }
    int outer = wfix; /* a signal inside a nested cycle also counts for the enclosing one */
    if (!a->cycle) { want_list(i + 1, a->end - 1); return; }
    for (int r = 0; r < 100; r++) { wfix = 1; want_list(i + 1, a->end - 1); outer = outer && wfix; if (wfix) break; }
    wfix = outer; }
static void m_e2e(void) {
    led_reset(); led_on = 1; externals(); long base = led_n; budget = 12; e2e = 1; npn = 0; memset(pcount, 0, sizeof pcount); memset(wcount, 0, sizeof wcount);
    sh *s = grow(g_root, (int)vh_n(4), 40, 1); e2e_root = s; vh_reset(); vh_op("run on "); dump(s, 0); realize(s, 0);
    salt = (uint32_t)vh_rnd(); nest = max_nest = style = 0; ngot = nwant = 0; gate_mask = (int)vh_rnd(); notify_salt = (int)vh_n(1000);
    for (int i = 0; i < g_nactions; i++) { if (g_acts[i].gate) pidx(g_acts[i].gate); if (g_acts[i].k == A_PASS) pidx(g_acts[i].fn); }
    CCNsetTreeCheck(false); quiet(); int so = dup(1), nul = open("/dev/null", O_WRONLY); fflush(stdout); dup2(nul, 1); close(nul);
    CCNrun(s->r); fflush(stdout); dup2(so, 1); close(so); loud();
    wfix = 1; int i = 0; want_act(&i);
    log_same("run");
    if (led_n != base) vh_fail("run-free", "%ld blocks of the tree were not released at the end", led_n - base);
    ext_free(); led_on = 0; sh_reset(); }
#endif
int main(int argc, char **argv) {
    const char *mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); int n = atoi(argv[3]);
    setvbuf(stdout, NULL, _IOLBF, 0);
    int done = 0;
    for (int i = 0; i < n && vh_fails < 3; i++) { vh_seed(seed * 1000003 + i); done++;
        if (i % 50 == 0) printf("AT %s seed %llu case %d\n", mode, (unsigned long long)seed, i);
        if (!strcmp(mode, "ctor")) { led_reset(); led_on = 1; m_ctor(); led_on = 0; }
        else if (!strcmp(mode, "copy")) m_copy(); else if (!strcmp(mode, "free")) m_free(); else if (!strcmp(mode, "trav")) m_trav();
        else if (!strcmp(mode, "check")) m_check(); else if (!strcmp(mode, "life")) { only_lt = 1; m_check(); } else if (!strcmp(mode, "sets")) { m_sets(); break; }
#ifdef REAL_PD
        else if (!strcmp(mode, "run")) m_e2e();
#endif
    }
    printf("CASES %d %s\n", done, mode);
    return vh_fails ? 1 : 0; }
