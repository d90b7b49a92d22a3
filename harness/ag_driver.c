/* C15: evaluates the attributes of random trees with the generated visits and compares every
   attribute of every node with the demand-driven solution of the equations */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ag_driver.h"
#include "ccngen/ag.h"
extern const int ag_nattr; extern const char *ag_attrs[];
node_st *ag_make(void); int ag_get(int, int); int ag_kind(int, int); const char *ag_type(int); int ag_rule(int, int, int);
struct ag_node ag_node[4096];
int ag_count;
static unsigned long long rs;
static int memo[4096][64]; static char state[4096][64];
unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 11); }
int ag_reserve(int type, int kids) {
    if (ag_count >= 4000) { printf("AT tree too large\n"); exit(0); }
    struct ag_node *n = &ag_node[ag_count];
    n->type = type; n->par = -1; n->slot = -1;
    for (int i = 0; i < 8; i++) n->kid[i] = -1;
    return ag_count++;
}
int ag_mix(int rule, int mask, const int *v, long n) {
    unsigned h = 2166136261u;
    h = (h ^ (unsigned)rule) * 16777619u; h = (h ^ (unsigned)mask) * 16777619u;
    for (long i = 0; i < n; i++) { h ^= (unsigned)v[i]; h *= 2654435761u; h ^= h >> 15; h += (unsigned)i; }
    return (int)(h | 1u);
}
static void path(int id) { if (ag_node[id].par >= 0) { path(ag_node[id].par); printf(".%d:", ag_node[id].slot); } printf("%s", ag_type(ag_node[id].type)); }
int ag_ref(int id, int a) {
    if (state[id][a] == 2) return memo[id][a];
    if (state[id][a] == 1) { printf("FAIL cyclic | an accepted grammar has a tree in which %s of ", ag_attrs[a]); path(id); printf(" depends on itself\n"); fflush(stdout); exit(1); }
    state[id][a] = 1;
    int k = ag_kind(ag_node[id].type, a), v;
    if (k == 3) v = ag_get(id, a);
    else if (k == 1) v = ag_rule(id, -1, a);
    else v = ag_rule(ag_node[id].par, ag_node[id].slot, a);
    state[id][a] = 2; memo[id][a] = v;
    return v;
}
int main(int argc, char **argv) {
    int cases = atoi(argv[2]);
    for (int i = 0; i < cases; i++) {
        rs = 88172645463325252ULL ^ ((unsigned long long)atoi(argv[1]) << 32) ^ (unsigned long long)(i + 1) * 2654435761ULL;
        for (int k = 0; k < 10; k++) rnd();
        ag_count = 0; memset(state, 0, sizeof state);
        node_st *root = ag_make();
        for (int id = 0; id < ag_count; id++)
            for (int a = 0; a < ag_nattr; a++)
                if (ag_kind(ag_node[id].type, a)) ag_ref(id, a);
        CCNevaluateAttributes(root);
        for (int id = 0; id < ag_count; id++)
            for (int a = 0; a < ag_nattr; a++)
                if (ag_kind(ag_node[id].type, a) && ag_get(id, a) != memo[id][a]) {
                    printf("FAIL value | case %d: attribute %s of ", i, ag_attrs[a]); path(id);
                    printf(" is %d after the evaluation, its equation gives %d\n", ag_get(id, a), memo[id][a]);
                    return 1;
                }
    }
    printf("CASES %d\n", cases);
    return 0;
}
