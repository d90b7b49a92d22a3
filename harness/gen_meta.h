#ifndef GEN_META_H
#define GEN_META_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
struct ccn_node;
enum kind { K_BOOL, K_STR, K_I32, K_F, K_D, K_U8, K_U16, K_U32, K_U64, K_I8, K_I16, K_I64, K_ENUM, K_LINK };
typedef struct val { enum kind k; int64_t i; double d; char *s; struct ccn_node *n; } val;
enum ltk { L_MAND, L_OPT, L_DIS, L_ALL };
struct lt { enum ltk k; int b, e; };
struct cm { const char *name; uint32_t allowed; int ctor, nl; const struct lt *l; };
struct am { const char *name; enum kind k; int ctor, nenum, nl; const struct lt *l; };
struct nm { const char *name; int nt; int nc; const struct cm *c; int na; const struct am *a; int nl; const struct lt *l; };
struct tm_ { const char *name; int tt; uint32_t handled; int data; };
enum ak { A_PHASE, A_TRAV, A_PASS };
struct act { int id; enum ak k; const char *name, *fn; int t, end; const char *gate; int cycle; };
extern const struct nm g_nodes[]; extern const int g_nn, g_root, g_nt, g_nactions; extern const struct tm_ g_travs[]; extern const struct act g_acts[];
struct ccn_node *G_mk(int k, struct ccn_node **c, val *a);
struct ccn_node **G_ch(int k, struct ccn_node *n, int i);
val G_get(int k, struct ccn_node *n, int i);
void G_set(int k, struct ccn_node *n, int i, val v);
void *G_data(int k, struct ccn_node *n);
struct ccn_node *G_travchild(int k, struct ccn_node *n, int i);
int G_td_zero(int t); void G_td_fill(int t, int x); int G_td_check(int t, int x);
struct ccn_node *h_handler(int t, int k, struct ccn_node *n);
void h_init(int t); void h_fini(int t);
struct ccn_node *h_pass(const char *f, struct ccn_node *n);
bool h_gate(const char *g);
#endif
