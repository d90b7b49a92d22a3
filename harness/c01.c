#include "common.h"
#include "palm/hash_table.h"
#define NK 48
/* client hash functions: constant, low entropy, huge values */
static int hmode;
static int canon[NK];                 /* key index -> equality class */
static int keys[NK];
static size_t H(void *k) { int c = canon[(int *)k - keys]; switch (hmode) { case 0: return 7; case 1: return c; case 2: return ~(size_t)0 - c; case 3: return (size_t)c << 33; case 4: return c % 3; default: return (size_t)c * 0x9E3779B97F4A7C15ULL; } }
static bool EQf(void *a, void *b) { return canon[(int *)a - keys] == canon[(int *)b - keys]; }
struct ref { int n; void *k[NK]; void *v[NK]; };
static int rfind(struct ref *r, void *k) { for (int i = 0; i < r->n; i++) if (EQf(r->k[i], k)) return i; return -1; }
static void rput(struct ref *r, void *k, void *v) { int i = rfind(r, k); if (i >= 0) r->v[i] = v; else { r->k[r->n] = k; r->v[r->n++] = v; } }
static void *rdel(struct ref *r, void *k) { int i = rfind(r, k); if (i < 0) return NULL; void *v = r->v[i]; r->n--; r->k[i] = r->k[r->n]; r->v[i] = r->v[r->n]; return v; }
static void check(htable_st *t, struct ref *r, int full, const char *who) {
    if (HTelementCount(t) != (size_t)r->n) vh_fail("count", "%s: element count %zu, expected %d", who, HTelementCount(t), r->n);
    if (!full) return;
    for (int i = 0; i < NK; i++) { int j = rfind(r, &keys[i]); void *e = j >= 0 ? r->v[j] : NULL; void *g = HTlookup(t, &keys[i]);
        if (g != e) vh_fail("lookup", "%s: lookup key %d gives %p, expected %p", who, i, g, e); }
    int seen[NK] = {0}, cnt = 0;
    for (htable_iter_st *it = HTiterate(t); it; it = HTiterateNext(it)) {
        if (cnt > NK) { vh_fail("iterate", "%s: iteration yields more entries than the table has", who); HTiterateCancel(it); return; }
        cnt++;
        int j = rfind(r, HTiterKey(it));
        if (j < 0) { vh_fail("iterate", "%s: iteration yields key %d that is not in the map", who, (int)((int *)HTiterKey(it) - keys)); continue; }
        if (r->k[j] != HTiterKey(it)) vh_fail("iterkey", "%s: iteration yields another key object than the inserted one", who);
        if (seen[j]++) vh_fail("iterate", "%s: iteration yields a key twice", who);
        if (r->v[j] != HTiterValue(it)) vh_fail("iterate", "%s: iteration yields the wrong value", who); }
    if (cnt != r->n) vh_fail("iterate", "%s: iteration yields %d of %d entries", who, cnt, r->n);
}
static void *V(int i) { return (void *)(uintptr_t)(0x1000 + i); }
static void *mapf(void *v) { return (void *)((uintptr_t)v * 3 + 1); }
static void *mapk(void *k, void *v) { return (void *)((uintptr_t)v * 5 + canon[(int *)k - keys]); }
static void *mapdk(void *d, void *k, void *v) { return (void *)((uintptr_t)v * 7 + canon[(int *)k - keys] + (uintptr_t)d); }
static struct { uintptr_t sum; int n; } facc;
static void fold(void *acc, void *v) { if (acc != &facc) vh_fail("fold", "wrong accumulator"); facc.sum = facc.sum + (uintptr_t)v * (uintptr_t)v; facc.n++; }
static int kcp, vcp;
static void *cpk(void *k) { kcp++; return k; }
static void *cpv(void *v) { vcp++; return (void *)((uintptr_t)v + 1); }
static long runs;
static void one(int nops, int nk, int size) {
    vh_reset();
    vh_op("size=%d hash#%d keys=%d;", size, hmode, nk);
    htable_st *t = HTnew(size, H, EQf); struct ref r = {0}; int vc = 1;
    for (int o = 0; o < nops; o++) {
        int k = vh_n(nk); void *kp = &keys[k];
        switch (vh_n(24)) {
        case 0: case 1: case 2: case 3: case 4: case 5: case 6: { void *v = V(vc++); vh_op("ins %d;", k); bool b = HTinsert(t, kp, v); if (!b) vh_fail("insert", "insert of key %d returns false", k); rput(&r, kp, v); break; }
        case 7: case 8: case 9: case 10: case 11: { vh_op("rem %d;", k); void *e = rdel(&r, kp), *g = HTremove(t, kp); if (e != g) vh_fail("remove", "remove key %d gives %p expected %p", k, g, e); break; }
        case 12: case 13: { vh_op("look %d;", k); int j = rfind(&r, kp); void *e = j >= 0 ? r.v[j] : NULL, *g = HTlookup(t, kp); if (e != g) vh_fail("lookup", "lookup key %d gives %p expected %p", k, g, e); break; }
        case 14: vh_op("map;"); HTmap(t, mapf); for (int i = 0; i < r.n; i++) r.v[i] = mapf(r.v[i]); break;
        case 15: vh_op("mapk;"); HTmapWithKey(t, mapk); for (int i = 0; i < r.n; i++) r.v[i] = mapk(r.k[i], r.v[i]); break;
        case 16: vh_op("mapdk;"); HTmapWithDataAndKey(t, (void *)13, mapdk); for (int i = 0; i < r.n; i++) r.v[i] = mapdk((void *)13, r.k[i], r.v[i]); break;
        case 17: { vh_op("fold;"); facc.sum = 0; facc.n = 0; HTfold(t, fold, &facc); uintptr_t s = 0; for (int i = 0; i < r.n; i++) s += (uintptr_t)r.v[i] * (uintptr_t)r.v[i]; if (facc.n != r.n || s != facc.sum) vh_fail("fold", "fold saw %d values of %d", facc.n, r.n); break; }
        case 18: if (!vh_n(4)) { vh_op("clear;"); HTclear(t); r.n = 0; } break;
        case 19: { vh_op("cpy;"); htable_st *c = HTcpy(t); struct ref r2 = r; check(c, &r2, 1, "copy"); if (nk) { HTinsert(c, kp, V(9000)); HTremove(c, &keys[vh_n(nk)]); } check(t, &r, 1, "original after change of copy"); HTdelete(c); break; }
        case 20: { vh_op("deepcpy;"); kcp = vcp = 0; htable_st *c = HTdeep_copy(t, cpk, cpv); struct ref r2 = r; for (int i = 0; i < r2.n; i++) r2.v[i] = (void *)((uintptr_t)r2.v[i] + 1); check(c, &r2, 1, "deep copy"); if (kcp != r.n || vcp != r.n) vh_fail("deepcopy", "copy functions called %d/%d times for %d entries", kcp, vcp, r.n); HTdelete(c); break; }
        case 21: { vh_op("iterset;"); int i = 0; for (htable_iter_st *it = HTiterate(t); it; it = HTiterateNext(it)) { void *v = V(vc++); int j = rfind(&r, HTiterKey(it)); HTiterSetValue(it, v); if (j >= 0) r.v[j] = v; if (HTiterValue(it) != v) vh_fail("iterset", "value set through the iterator is not read back"); if (++i > NK) break; if (!vh_n(9)) { HTiterateCancel(it); break; } } break; }
        default: check(t, &r, 1, "state");
        }
        check(t, &r, vh_n(4) == 0, "state");
        if (vh_fails > 20) exit(1);
    }
    check(t, &r, 1, "final");
    HTdelete(t);
    runs++;
}
/* bounded exhaustive: every history of length L over 3 keys x {insert, remove} */
static void exhaustive(int L) {
    for (hmode = 0; hmode < 6; hmode++) for (int size = 1; size <= 3; size++) {
        long total = 1; for (int i = 0; i < L; i++) total *= 7;
        for (long c = 0; c < total; c++) {
            vh_reset(); vh_op("size=%d hash#%d;", size, hmode);
            htable_st *t = HTnew(size, H, EQf); struct ref r = {0}; long x = c;
            for (int i = 0; i < L; i++, x /= 7) { int k = x % 7;
                if (k < 3) { vh_op("ins %d;", k); HTinsert(t, &keys[k], V(i)); rput(&r, &keys[k], V(i)); }
                else if (k < 6) { k -= 3; vh_op("rem %d;", k); void *e = rdel(&r, &keys[k]), *g = HTremove(t, &keys[k]); if (e != g) vh_fail("remove", "remove key %d gives %p expected %p", k, g, e); }
                else { vh_op("clear;"); HTclear(t); r.n = 0; } }
            check(t, &r, 1, "state"); HTdelete(t); runs++;
            if (vh_fails > 20) exit(1);
        } }
}
static void named(void) {
    /* provided tables: strings by content, ints by value, pointers by identity */
    char pool[64][2][40]; htable_st *t = HTnew_String(1 + vh_n(40)); int present[64] = {0};
    vh_reset();
    int n = 1 + vh_n(64);
    for (int i = 0; i < n; i++) { int l = vh_n(30); for (int j = 0; j < l; j++) { int c = 1 + vh_n(255); if (vh_n(2)) c = 'a' + vh_n(3); pool[i][0][j] = c; } sprintf(pool[i][0] + l, "%d", i); strcpy(pool[i][1], pool[i][0]); }
    for (int o = 0; o < 200; o++) { int i = vh_n(n); switch (vh_n(3)) {
        case 0: vh_op("sins %d;", i); HTinsert(t, pool[i][vh_n(2)], V(o)); present[i] = o + 1; break;
        case 1: { vh_op("srem %d;", i); void *g = HTremove(t, pool[i][vh_n(2)]); if (g != (present[i] ? V(present[i] - 1) : NULL)) vh_fail("string-remove", "string table remove"); present[i] = 0; break; }
        default: { void *g = HTlookup(t, pool[i][vh_n(2)]); if (g != (present[i] ? V(present[i] - 1) : NULL)) vh_fail("string-lookup", "string table lookup of key #%d \"%s\"", i, pool[i][0]); } } }
    HTdelete(t);
    t = HTnew_Int(1 + vh_n(20)); int a[64], b[64]; memset(present, 0, sizeof present);
    for (int i = 0; i < n; i++) a[i] = b[i] = (int)(vh_n(2) ? vh_rnd() : i - 3);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (a[i] == a[j]) { a[i] = b[i] = 1000000 + i; }
    for (int o = 0; o < 200; o++) { int i = vh_n(n); int *k = vh_n(2) ? &a[i] : &b[i]; switch (vh_n(3)) {
        case 0: HTinsert(t, k, V(o)); present[i] = o + 1; break;
        case 1: { void *g = HTremove(t, k); if (g != (present[i] ? V(present[i] - 1) : NULL)) vh_fail("int-remove", "int table remove of %d", a[i]); present[i] = 0; break; }
        default: { void *g = HTlookup(t, k); if (g != (present[i] ? V(present[i] - 1) : NULL)) vh_fail("int-lookup", "int table lookup of %d", a[i]); } } }
    HTdelete(t);
    t = HTnew_Ptr(1 + vh_n(40)); memset(present, 0, sizeof present);
    for (int o = 0; o < 200; o++) { int i = vh_n(n); void *k = vh_n(2) ? (void *)&pool[i] : (void *)&pool[i]; switch (vh_n(3)) {
        case 0: HTinsert(t, k, V(o)); present[i] = o + 1; break;
        case 1: { void *g = HTremove(t, k); if (g != (present[i] ? V(present[i] - 1) : NULL)) vh_fail("ptr-remove", "pointer table remove"); present[i] = 0; break; }
        default: { void *g = HTlookup(t, k); if (g != (present[i] ? V(present[i] - 1) : NULL)) vh_fail("ptr-lookup", "pointer table lookup"); } } }
    HTdelete(t); runs++;
}
int main(int argc, char **argv) {
    long seed = atol(argv[1]), n = atol(argv[2]); int L = atoi(argv[3]);
    for (int i = 0; i < NK; i++) canon[i] = i;
    exhaustive(L);
    printf("CASES %ld exhaustive_histories\n", runs); runs = 0;
    for (long i = 0; i < n; i++) { vh_seed(seed * 1000003 + i); hmode = vh_n(6);
        int cl = 1 + vh_n(NK); for (int j = 0; j < NK; j++) canon[j] = vh_n(3) ? j % cl : j;
        one(1 + vh_n(i % 10 == 0 ? 300 : 60), 1 + vh_n(NK), 1 + (vh_n(3) ? vh_n(4) : vh_n(70))); 
        named(); }
    printf("CASES %ld random_histories\n", runs);
    return vh_fails ? 1 : 0;
}
