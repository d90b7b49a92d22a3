#pragma once
#include <stdarg.h>
#include "ccngen/ast.h"
struct ag_node { node_st *p; int type, par, slot, kid[8]; };
extern struct ag_node ag_node[];
extern int ag_count;
int ag_reserve(int type, int kids);
unsigned rnd(void);
int ag_mix(int rule, int mask, const int *v, long n);
int ag_ref(int id, int a);
#define MIX(rule, mask, ...) ag_mix(rule, mask, (int[]){0, ##__VA_ARGS__} + 1, sizeof((int[]){0, ##__VA_ARGS__}) / sizeof(int) - 1)
