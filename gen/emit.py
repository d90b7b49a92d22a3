"""C tables describing one specification for the generic driver harness/gen_driver.c"""
from .spec import CTYPE, interval, number, find_action

KIND = {'bool': 'K_BOOL', 'string': 'K_STR', 'int': 'K_I32', 'float': 'K_F', 'double': 'K_D', 'uint8': 'K_U8', 'uint16': 'K_U16', 'uint32': 'K_U32',
        'uint64': 'K_U64', 'int8': 'K_I8', 'int16': 'K_I16', 'int32': 'K_I32', 'int64': 'K_I64'}

def enum_of(sp, ty):
    for e in sp.enums:
        if e.name.lower() == ty.lower():
            return e
    return None

def kind(sp, ty):
    if ty in KIND:
        return KIND[ty]
    return 'K_ENUM' if enum_of(sp, ty) else 'K_LINK'

def cty(sp, ty):
    if ty in CTYPE:
        return CTYPE[ty]
    e = enum_of(sp, ty)
    return 'enum %s' % e.name if e else 'node_st *'

LTK = {'mandatory': 'L_MAND', 'optional': 'L_OPT', 'disallowed': 'L_DIS', 'allowed': 'L_ALL'}

def rd(sp, ty, expr):
    k = kind(sp, ty)
    if k == 'K_STR':
        return '(val){.k=K_STR, .s=%s}' % expr
    if k == 'K_LINK':
        return '(val){.k=K_LINK, .n=%s}' % expr
    if k in ('K_F', 'K_D'):
        return '(val){.k=%s, .d=%s}' % (k, expr)
    return '(val){.k=%s, .i=(int64_t)(%s)}' % (k, expr)

def wr(sp, ty, v):
    k = kind(sp, ty)
    f = {'K_STR': 's', 'K_LINK': 'n', 'K_F': 'd', 'K_D': 'd'}.get(k, 'i')
    return '(%s)(%s).%s' % (cty(sp, ty), v, f)

def emit(sp):
    o = []
    w = o.append
    w('#include "gen_meta.h"')
    w('#include "ccngen/ast.h"\n#include "ccngen/actions.h"\n#include "ccngen/enum.h"\n#include "ccngen/trav.h"\n#include "ccngen/trav_data.h"\n#include "ccn/dynamic_core.h"')
    N = sp.nodes
    idx = {n.name.lower(): i for i, n in enumerate(N)}
    def mask(s):
        return '0x%xu' % sum(1 << idx[x] for x in s)
    def lts(name, ls):
        if not ls:
            return 'NULL'
        rows = []
        for l in ls:
            b, e = interval(sp, l)
            rows.append('{%s, %d, %d}' % (LTK[l.kind], -1 if b is None else b, -1 if e is None else e))
        w('static const struct lt %s[] = { %s };' % (name, ', '.join(rows)))
        return name
    for i, n in enumerate(N):
        rows = []
        for j, c in enumerate(n.children):
            l = lts('lt_c_%d_%d' % (i, j), c.lts)
            rows.append('{"%s", %s, %d, %d, %s}' % (c.name, mask(sp.types_of(c.type)), int(c.ctor), len(c.lts), l))
        w('static const struct cm ch_%d[] = { %s };' % (i, ', '.join(rows) or '{0}'))
        rows = []
        for j, a in enumerate(n.attrs):
            l = lts('lt_a_%d_%d' % (i, j), a.lts)
            e = enum_of(sp, a.type)
            rows.append('{"%s", %s, %d, %d, %d, %s}' % (a.name, kind(sp, a.type), int(a.ctor), len(e.values) if e else 0, len(a.lts), l))
        w('static const struct am at_%d[] = { %s };' % (i, ', '.join(rows) or '{0}'))
    rows = []
    for i, n in enumerate(N):
        l = lts('lt_n_%d' % i, n.lts)
        rows.append('{"%s", NT_%s, %d, ch_%d, %d, at_%d, %d, %s}' % (n.name, n.name.upper(), len(n.children), i, len(n.attrs), i, len(n.lts), l))
    w('const struct nm g_nodes[] = { %s };' % ',\n  '.join(rows))
    w('const int g_nn = %d; const int g_root = %d; const int g_nactions = %d; const int g_has_ctinfo = 0;' % (len(N), [i for i, n in enumerate(N) if n.root][0], len(number(sp))))
    rows = []
    for i, t in enumerate(sp.travs):
        rows.append('{"%s", TRAV_%s, %s, %d}' % (t.name, t.uid.upper(), mask(sp.handled(t)), len(t.data)))
    w('const struct tm_ g_travs[] = { %s };' % (',\n  '.join(rows) or '{0}'))
    w('const int g_nt = %d;' % len(sp.travs))
    # constructors: children with 'constructor', then attributes with 'constructor', each in declaration order
    w('node_st *G_mk(int k, node_st **c, val *a) { switch (k) {')
    for i, n in enumerate(N):
        args = ['c[%d]' % j for j, c in enumerate(n.children) if c.ctor] + [wr(sp, a.type, 'a[%d]' % j) for j, a in enumerate(n.attrs) if a.ctor]
        w(' case %d: return AST%s(%s);' % (i, n.name.lower(), ', '.join(args)))
    w(' } return NULL; }')
    w('node_st **G_ch(int k, node_st *n, int i) { switch (k) {')
    for i, n in enumerate(N):
        if n.children:
            w(' case %d: switch (i) {' % i + ''.join(' case %d: return &%s_%s(n);' % (j, n.name.upper(), c.name.upper()) for j, c in enumerate(n.children)) + ' } break;')
    w(' } return NULL; }')
    w('val G_get(int k, node_st *n, int i) { switch (k) {')
    for i, n in enumerate(N):
        if n.attrs:
            w(' case %d: switch (i) {' % i + ''.join(' case %d: return %s;' % (j, rd(sp, a.type, '%s_%s(n)' % (n.name.upper(), a.name.upper()))) for j, a in enumerate(n.attrs)) + ' } break;')
    w(' } return (val){0}; }')
    w('void G_set(int k, node_st *n, int i, val v) { switch (k) {')
    for i, n in enumerate(N):
        if n.attrs:
            w(' case %d: switch (i) {' % i + ''.join(' case %d: %s_%s(n) = %s; return;' % (j, n.name.upper(), a.name.upper(), wr(sp, a.type, 'v')) for j, a in enumerate(n.attrs)) + ' } break;')
    w(' } }')
    w('void *G_data(int k, node_st *n) { switch (k) {')
    for i, n in enumerate(N):
        if n.children or n.attrs:
            w(' case %d: return n->data.N_%s;' % (i, n.name.lower()))
    w(' } return NULL; }')
    # TRAV<child>
    w('node_st *G_travchild(int k, node_st *n, int i) { switch (k) {')
    for i, n in enumerate(N):
        if n.children:
            w(' case %d: switch (i) {' % i + ''.join(' case %d: return TRAV%s(n);' % (j, c.name) for j, c in enumerate(n.children)) + ' } break;')
    w(' } return n; }')
    # handlers
    for i, t in enumerate(sp.travs):
        for nm in sorted(sp.handled(t)):
            w('node_st *%s%s(node_st *n) { return h_handler(%d, %d, n); }' % (t.uid.upper(), nm, i, idx[nm]))
        if t.data:
            w('void %sinit() { h_init(%d); }\nvoid %sfini() { h_fini(%d); }' % (t.uid.upper(), i, t.uid.upper(), i))
    w('int G_td_zero(int t) { switch (t) {')
    for i, t in enumerate(sp.travs):
        if t.data:
            w(' case %d: return %s;' % (i, ' && '.join('(DATA_%s_GET()->%s == 0)' % (t.uid.upper(), d.name) for d in t.data)))
    w(' } return 1; }')
    w('void G_td_fill(int t, int x) { switch (t) {')
    for i, t in enumerate(sp.travs):
        if t.data:
            w(' case %d:' % i + ''.join(' DATA_%s_GET()->%s = (%s)(uintptr_t)((x + %d) & 0x%x);' % (t.uid.upper(), d.name, cty(sp, d.type) if kind(sp, d.type) not in ('K_F', 'K_D') else 'unsigned', j, 1 if d.type == 'bool' else 0x3f) for j, d in enumerate(t.data)) + ' return;')
    w(' } }')
    w('int G_td_check(int t, int x) { switch (t) {')
    for i, t in enumerate(sp.travs):
        if t.data:
            w(' case %d: return ' % i + ' && '.join('(DATA_%s_GET()->%s == (%s)(uintptr_t)((x + %d) & 0x%x))' % (t.uid.upper(), d.name, cty(sp, d.type) if kind(sp, d.type) not in ('K_F', 'K_D') else 'unsigned', j, 1 if d.type == 'bool' else 0x3f) for j, d in enumerate(t.data)) + ';')
    w(' } return 1; }')
    # passes, gates
    done = set()
    for i, p in enumerate(sp.passes):
        f = pass_func(p)
        if f not in done:
            done.add(f)
            w('node_st *%s(node_st *n) { return h_pass("%s", n); }' % (f, f))
    for g in sorted({p.gate for p in sp.phases if p.gate}):
        w('bool %s() { return h_gate("%s"); }' % (g, g))
    # declared action structure, preorder, for the end-to-end run
    rows = []
    for (i, k, a, path, end) in number(sp):
        nm = 'phase' if k == 'phases' else ('trav' if k == 'travs' else 'pass')
        fn = pass_func(a) if k == 'passes' else a.name
        ti = [j for j, t in enumerate(sp.travs) if t is a][0] if k == 'travs' else -1
        rows.append('{%d, %s, "%s", "%s", %d, %d, %s}' % (i, 'A_' + nm.upper(), a.name, fn, ti, end, '"%s", %d' % (a.gate, int(a.cycle)) if k == 'phases' and a.gate else 'NULL, %d' % (int(a.cycle) if k == 'phases' else 0)))
    w('const struct act g_acts[] = { %s };' % ',\n  '.join(rows))
    return '\n'.join(o) + '\n'

def pass_func(p):
    if p.func:
        return p.func
    return (p.uid.upper() if p.uid else '') + p.name
