"""C03, C07, C09-C14: the code generated by the current cocogen for a specification, proved against
contracts derived from the specification (for every tree, every action number, every argument).

One verification file per specification includes the generated sources unchanged and adds one
accessor function per child and attribute, written with the documented macros, so that the contracts
do not depend on how the generated code lays its fields out.  Functions under contract call each
other through contracts; the recursion through the traversal machinery (TRAVopt, TRAVchildren) uses
the induction hypothesis of the property, justified by the dispatch tables (ground obligations on
vtables.c) and C03."""
import os, sys, shutil
import z3
from ccv import runner, front
from ccv.exec import *
from gen import spec as S, build as B, emit as E

NT, CH, NC, FN = 'ccn_node.nodetype', 'ccn_node.children', 'ccn_node.num_children', 'ccn_node.filename'
POS = ['ccn_node.begin_line', 'ccn_node.end_line', 'ccn_node.begin_col', 'ccn_node.end_col']
SL, DATA = 'mem:*ccn_node', 'NODE_DATA.*'
STR, COPYOF, ERR, ACT = 'ghost:str', 'ghost:copyof', 'g:errors', 'ghost:action'
VISIT = 'ghost:visits'
a_ = z3.Int('a!g')
BEL = z3.Function('belongs_to', I, I, z3.BoolSort())          # block, root of a sub-tree
CE = z3.Function('errors_below', I, I, I)                     # errors the check reports in a sub-tree, at an action

# ------------------------------------------------------------------ verification files
def write_vt(sp, d):
    o = ['#include <stdlib.h>', '#include "ccngen/ast.h"', '#include "ccngen/actions.h"', '#include "ccngen/enum.h"', '#include "ccngen/trav_data.h"', '#include "ccn/dynamic_core.h"']
    for f in ('ast.c', 'ccn_copy.c', 'ccn_free.c', 'ccn_check.c', 'vtables.c', 'trav.c', 'trav_data.c'):
        if os.path.exists(os.path.join(d, 'out', f)):
            o.append('#include "%s"' % os.path.join(d, 'out', f))
    for i, n in enumerate(sp.nodes):
        for j, c in enumerate(n.children):
            o.append('node_st **vt_c_%d_%d(node_st *n) { return &%s_%s(n); }' % (i, j, n.name.upper(), c.name.upper()))
        for j, a in enumerate(n.attrs):
            o.append('%s *vt_a_%d_%d(node_st *n) { return &%s_%s(n); }' % (E.cty(sp, a.type), i, j, n.name.upper(), a.name.upper()))
    for i, t in enumerate(sp.travs):
        for j, x in enumerate(t.data):
            o.append('%s *vt_d_%d_%d(void) { return &(DATA_%s_GET()->%s); }' % (E.cty(sp, x.type), i, j, t.uid.upper(), x.name))
    o.append('ccn_trav_ft vt_row(int t, int k) { return ccn_trav_vtable[t][k]; }')
    o.append('ccn_trav_data_ft vt_init(int t) { return trav_data_init_vtable[t]; }')
    o.append('ccn_trav_data_ft vt_fini(int t) { return trav_data_free_vtable[t]; }')
    p = os.path.join(d, 'vt.c')
    with open(p, 'w') as f:
        f.write('\n'.join(o) + '\n')
    return p

_gen = {}
def program(sp, scratch, tag):
    """generates the program once per specification; returns the verification file or None"""
    k = (scratch, tag, sp.seed)
    if k not in _gen:
        cg = B.cocogen(scratch)
        d = os.path.join(scratch, 'gp_%s_%d' % (tag, sp.seed))
        rc, so, se = B.generate(cg, d, S.to_ccn(sp, sp.seed, inline=sp.seed % 2 == 0))
        _gen[k] = (d, write_vt(sp, d) if rc == 0 else None)
    return _gen[k]

# ------------------------------------------------------------------ helpers over the program
class P:
    """a specification with its extracted program"""
    def __init__(self, sp, tu):
        self.sp, self.tu = sp, tu
        self.idx = {n.name.lower(): i for i, n in enumerate(sp.nodes)}
    def nt(self, name):
        return IntV(self.tu.enums['NT_' + name.upper()])
    def acc(self, c, h, fn, *args):
        """location (key, address) the documented accessor yields for node n in state h"""
        eng = c.eng
        st = h.st.copy()
        eng.mute += 1
        try:
            r = eng.inline_call(st, self.tu, self.tu.funcs[fn], fn, list(args))
        finally:
            eng.mute -= 1
        if len(r) != 1:
            raise front.Unsupported('accessor with several paths')
        t = z3.simplify(r[0][1]) if False else r[0][1]
        l = eng.loc_of_ptr(t)
        return l if l is not None else ('mem:*' + 'ccn_node', t)
    def child(self, c, h, i, j, n):
        return self.acc(c, h, 'vt_c_%d_%d' % (i, j), n)
    def attr(self, c, h, i, j, n):
        return self.acc(c, h, 'vt_a_%d_%d' % (i, j), n)
    def kind(self, a):
        return E.kind(self.sp, a.type)

def val(h, l):
    return z3.Select(h[l[0]], l[1])

def wf_node(p, c, h, i, n, deep=True):
    """what holds of every node of type i (established by its constructor, kept by everything)"""
    nd = p.sp.nodes[i]
    r = [n != 0, h.live(n), h.f(NT, n) == p.nt(nd.name), h.f(NC, n) == len(nd.children)]
    D = h.f(DATA, n)
    r += [D != 0, h.live(D), D != n]
    if nd.children:
        for j in range(len(nd.children)):
            l = p.child(c, h, i, j, n)
            r.append(l[1] == h.f(CH, n) + j)
    return r

def allkeys(p, c, n=None):
    ks = ['ccn_node.' + f[0] for f in p.tu.records['ccn_node'] if p.tu.field_type('ccn_node', f[0])[0] not in ('struct', 'union')] + [SL, DATA]
    x = z3.Int('dummy!n')
    for i, nd in enumerate(p.sp.nodes):
        for j in range(len(nd.attrs)):
            ks.append(p.attr(c, c.pre, i, j, x)[0])
    return sorted(set(ks))

def fresh_mods(p, c, more=()):
    """only memory that was not live changes"""
    pre = c.pre
    d = {k: (lambda a: z3.Not(pre.live(a))) for k in allkeys(p, c)}
    d[SL] = lambda a: z3.Not(pre.live(a / 64))
    d['live'] = lambda a: z3.Not(pre.live(a))
    for k in more:
        d[k] = lambda a: z3.Not(pre.live(a))
    return d

# ------------------------------------------------------------------ builtins
def b_malloc(eng, st, args, rt, hint, n):
    s = st.copy()
    need = 0
    if hint and hint[0] == 'ptr' and hint[1][0] in ('struct', 'union'):
        need = eng.tu_of().sizeof(hint[1])
    eng.obligation(s, z3.And(args[0] >= need), 'the block is large enough', 'precondition')
    q = eng.fresh('new')
    eng.assume(s, z3.And(q > 0, z3.Not(z3.Select(eng.harr(s, 'live'), q))))
    s.heap['live'] = z3.Store(eng.harr(s, 'live'), q, True)
    return [(s, q)]

def b_free(eng, st, args, rt, hint, n):
    s = st.copy()
    q = args[0]
    eng.obligation(s, z3.Or(q == 0, z3.Select(eng.harr(s, 'live'), q)), 'a released block is live (released once, and owned)', 'safety')
    s.heap['live'] = z3.Store(eng.harr(s, 'live'), q, False)
    s.heap['live'] = z3.Store(s.heap['live'], 0, z3.Select(eng.harr(st, 'live'), 0))
    return [(s, IntV(0))]

def c_strcpy(p):
    def ens(c):
        s, r = c.args[0], c.ret
        return [('copy', z3.If(s == 0, r == 0, z3.And(r > 0, z3.Not(c.pre.live(r)), c.post.live(r), c.post.f(STR, r) == c.pre.f(STR, s))))]
    return Contract('STRcpy', lambda c: [('a string', z3.Or(c.args[0] == 0, c.pre.live(c.args[0])))], ens,
                    lambda c: {'live': lambda a: z3.And(a == c.ret, c.ret != 0), STR: lambda a: z3.Not(c.pre.live(a))}, trusted=True)

def frame0(eng): return eng.frames[0]['ctx']

# ------------------------------------------------------------------ constructors (C11)
def ast_contract(p, i):
    nd = p.sp.nodes[i]
    params = [('c', j) for j, x in enumerate(nd.children) if x.ctor] + [('a', j) for j, x in enumerate(nd.attrs) if x.ctor]
    def ens(c):
        h, pre, r = c.post, c.pre, c.ret
        o = [('a fresh node', z3.And(r != 0, z3.Not(pre.live(r)), h.live(r))),
             ('its type and number of children are recorded', z3.And(h.f(NT, r) == p.nt(nd.name), h.f(NC, r) == len(nd.children))),
             ('no file name yet', h.f(FN, r) == 0), ('positions are zero', z3.And([h.f(x, r) == 0 for x in POS]))]
        D = h.f(DATA, r)
        o.append(('its data is a fresh block of its own', z3.And(D != 0, D != r, z3.Not(pre.live(D)), h.live(D))))
        o.append(('nothing else is allocated', z3.ForAll([a_], z3.Implies(z3.And(h.live(a_), a_ != r, a_ != D), pre.live(a_)), patterns=[h.live(a_)])))
        locs = []
        for j, x in enumerate(nd.children):
            l = p.child(c, h, i, j, r)
            locs.append((x.name, l))
            want = c.args[params.index(('c', j))] if x.ctor else IntV(0)
            o.append(('child %s is %s' % (x.name, 'the argument' if x.ctor else 'NULL'), val(h, l) == want))
            o.append(('child %s is child number %d' % (x.name, j), z3.And(z3.BoolVal(l[0] == SL), l[1] == h.f(CH, r) + j)))
        for j, x in enumerate(nd.attrs):
            l = p.attr(c, h, i, j, r)
            locs.append((x.name, l))
            want = c.args[params.index(('a', j))] if x.ctor else IntV(0)
            o.append(('attribute %s is %s' % (x.name, 'the argument' if x.ctor else 'the zero of its type'), val(h, l) == want))
        for u in range(len(locs)):
            for v in range(u):
                if locs[u][1][0] == locs[v][1][0]:
                    o.append(('fields %s and %s do not overlap' % (locs[v][0], locs[u][0]), locs[u][1][1] != locs[v][1][1]))
        return o
    return Contract('AST' + nd.name.lower(), None, ens, lambda c: fresh_mods(p, c), allow_abort=False)

# ------------------------------------------------------------------ copy (C09)
def copy_pre(p, c, i):
    nd, n, h = p.sp.nodes[i], c.args[0], c.pre
    o = [('a node of this type', z3.And(wf_node(p, c, h, i, n)))]
    for s in strings(p, c, h, i, n):
        o.append(('strings', z3.Or(s == 0, h.live(s))))
    for j in range(len(nd.children)):
        v = val(h, p.child(c, h, i, j, n))
        o.append(('children', z3.Or(v == 0, h.live(v))))
    return o

def strings(p, c, h, i, n):
    nd = p.sp.nodes[i]
    return [val(h, p.attr(c, h, i, j, n)) for j, x in enumerate(nd.attrs) if p.kind(x) == 'K_STR'] + [h.f(FN, n)]

def cpy_contract(p, i):
    nd = p.sp.nodes[i]
    def ens(c):
        h, pre, r, n = c.post, c.pre, c.ret, c.args[0]
        o = [('a new node', z3.And(r != 0, z3.Not(pre.live(r)), h.live(r))),
             ('of the same type and arity', z3.And(h.f(NT, r) == p.nt(nd.name), h.f(NC, r) == len(nd.children))),
             ('positions are kept', z3.And([h.f(x, r) == pre.f(x, n) for x in POS]))]
        D = h.f(DATA, r)
        fresh = []
        if True:
            o.append(('with data of its own', z3.And(D != 0, D != r, z3.Not(pre.live(D)), h.live(D))))
        for j, x in enumerate(nd.children):
            l, v0 = p.child(c, h, i, j, r), val(pre, p.child(c, pre, i, j, n))
            v = val(h, l)
            o.append(('child %s is a copy of the child' % x.name, z3.If(v0 == 0, v == 0, z3.And(v != 0, z3.Not(pre.live(v)), h.live(v), h.f(COPYOF, v) == v0))))
            o.append(('child %s is child number %d' % (x.name, j), z3.And(z3.BoolVal(l[0] == SL), l[1] == h.f(CH, r) + j)))
            fresh.append((x.name, v))
        def string(nm, v, v0):
            o.append(('%s is duplicated, NULL stays NULL' % nm, z3.If(v0 == 0, v == 0, z3.And(v != 0, z3.Not(pre.live(v)), h.live(v), h.f(STR, v) == pre.f(STR, v0)))))
            fresh.append((nm, v))
        string('the file name', h.f(FN, r), pre.f(FN, n))
        for j, x in enumerate(nd.attrs):
            v, v0 = val(h, p.attr(c, h, i, j, r)), val(pre, p.attr(c, pre, i, j, n))
            if p.kind(x) == 'K_STR':
                string('string ' + x.name, v, v0)
            else:
                o.append(('%s %s is carried over' % ('link' if p.kind(x) == 'K_LINK' else 'attribute', x.name), v == v0))
        for u in range(len(fresh)):
            for w in range(u):
                o.append(('%s and %s share nothing' % (fresh[w][0], fresh[u][0]), z3.Or(fresh[u][1] == 0, fresh[u][1] != fresh[w][1])))
            o.append(('%s is not the node itself' % fresh[u][0], z3.And(fresh[u][1] != r, z3.Or(D == 0, fresh[u][1] != D)) if nd.children or nd.attrs else fresh[u][1] != r))
        return o
    return Contract('CPY' + nd.name.lower(), lambda c: copy_pre(p, c, i), ens, lambda c: fresh_mods(p, c, (STR, COPYOF)), allow_abort=False)

def copy_opt(p, name, optional=True):
    def ens(c):
        v0, r = c.args[0], c.ret
        return [('copy', z3.If(v0 == 0, r == 0, z3.And(r != 0, z3.Not(c.pre.live(r)), c.post.live(r), c.post.f(COPYOF, r) == v0)))]
    return Contract(name, lambda c: [('a node or NULL' if optional else 'a node', z3.Or(c.args[0] == 0, c.pre.live(c.args[0])) if optional else z3.And(c.args[0] != 0, c.pre.live(c.args[0])))],
                    ens, lambda c: fresh_mods(p, c, (STR, COPYOF)), trusted=True)

# ------------------------------------------------------------------ free (C10)
def kids(p, c, h, i, n):
    return [val(h, p.child(c, h, i, j, n)) for j in range(len(p.sp.nodes[i].children))]

def own(p, c, h, i, n):
    nd = p.sp.nodes[i]
    o = [('the node', n)]
    o.append(('its data', h.f(DATA, n)))
    o.append(('its file name', h.f(FN, n)))
    for j, x in enumerate(nd.attrs):
        if p.kind(x) == 'K_STR':
            o.append(('string ' + x.name, val(h, p.attr(c, h, i, j, n))))
    return o

def del_pre(p, c, i):
    n, h = c.args[0], c.pre
    O, K = own(p, c, h, i, n), kids(p, c, h, i, n)
    o = [('a node of this type', z3.And(wf_node(p, c, h, i, n)))]
    for u, (nm, b) in enumerate(O):
        o.append(('%s is live' % nm, z3.Or(b == 0, h.live(b))))
        for (nm2, b2) in O[:u]:
            o.append(('%s and %s are different blocks' % (nm, nm2), z3.Or(b == 0, b != b2)))
        for k in K:
            o.append(('%s belongs to no sub-tree' % nm, z3.Not(BEL(b, k))))
    for u, k in enumerate(K):
        o.append(('children', z3.Implies(k != 0, z3.And(h.live(k), BEL(k, k)))))
        for k2 in K[:u]:
            o.append(('sub-trees share nothing', z3.Implies(z3.And(k != 0, k2 != 0), z3.ForAll([a_], z3.Not(z3.And(BEL(a_, k), BEL(a_, k2))), patterns=[z3.MultiPattern(BEL(a_, k), BEL(a_, k2))]))))
    o.append(('NULL is not a block', z3.Not(h.live(0))))
    return o

def gone(a, k): return z3.And(k != 0, BEL(a, k))

def del_contract(p, i):
    nd = p.sp.nodes[i]
    def ens(c):
        h, pre, n = c.post, c.pre, c.args[0]
        O, K = own(p, c, pre, i, n), kids(p, c, pre, i, n)
        o = [('the result is NULL', c.ret == 0)]
        for (nm, b) in O:
            o.append(('%s is released' % nm, z3.Or(b == 0, z3.Not(h.live(b)))))
        for j, k in enumerate(K):
            o.append(('the tree under child %s is released' % nd.children[j].name, z3.Implies(k != 0, z3.ForAll([a_], z3.Implies(BEL(a_, k), z3.Not(h.live(a_))), patterns=[BEL(a_, k)]))))
        o.append(('no other block is released or left behind', z3.ForAll([a_], z3.Or(h.live(a_) == pre.live(a_), z3.Or([a_ == b for (_, b) in O] + [gone(a_, k) for k in K])), patterns=[h.live(a_)])))
        return o
    def mods(c):
        n, pre = c.args[0], c.pre
        d = {k: (lambda a: z3.Or(a == n, a == pre.f(DATA, n))) for k in allkeys(p, c)}
        d[SL] = lambda a: a / 64 == pre.f(DATA, n)
        d['live'] = None
        return d
    return Contract('DEL' + nd.name.lower(), lambda c: del_pre(p, c, i), ens, mods, allow_abort=False)

def release(eng, s, ks):
    old = HV(eng, s)['live']
    new = eng.fresh('live', AIB)
    eng.assume(s, z3.ForAll([a_], z3.Select(new, a_) == z3.And(z3.Select(old, a_), z3.Not(z3.Or([gone(a_, k) for k in ks]))), patterns=[z3.Select(new, a_)]))
    s.heap['live'] = new

def b_del_children(p, i):
    def b(eng, st, args, rt, hint, n):
        s = st.copy()
        c = frame0(eng)
        h = HV(eng, s)
        nd = p.sp.nodes[i]
        c2 = Ctx(eng, c.args, h, h, None, s)
        eng.obligation(s, args[0] == c.args[0], 'the children of the node itself are traversed', 'precondition')
        eng.obligation(s, z3.And(wf_node(p, c2, h, i, args[0])), 'the node is still intact', 'precondition')
        ks = kids(p, c2, h, i, args[0])
        for k in ks:
            eng.obligation(s, z3.Or(k == 0, h.live(k)), 'children are released once', 'precondition')
        release(eng, s, ks)
        for j in range(len(nd.children)):
            l = p.child(c2, h, i, j, args[0])
            eng.store(s, ('mem', l[0], l[1]), IntV(0))
        return [(s, args[0])]
    return b

def b_del_opt(eng, st, args, rt, hint, n):
    s = st.copy()
    k = args[0]
    eng.obligation(s, z3.Or(k == 0, z3.Select(eng.harr(s, 'live'), k)), 'children are released once', 'precondition')
    release(eng, s, [k])
    return [(s, IntV(0))]

# ------------------------------------------------------------------ check (C12, C13)
def in_iv(A, iv):
    b, e = iv
    return z3.And(([A >= b] if b is not None else []) + ([A < e] if e is not None else []) + [z3.BoolVal(True)])

def lt_bad(p, lts, A, present):
    """present: Bool; the lifetimes of one item are violated at action A"""
    r = []
    for l in lts:
        iv = S.interval(p.sp, l)
        if l.kind == 'mandatory':
            r.append(z3.And(in_iv(A, iv), z3.Not(present)))
        elif l.kind == 'disallowed':
            r.append(z3.And(in_iv(A, iv), present))
        elif l.kind == 'optional':       # mandatory everywhere else
            r.append(z3.And(z3.Not(in_iv(A, iv)), z3.Not(present)))
        elif l.kind == 'allowed':        # disallowed everywhere else
            r.append(z3.And(z3.Not(in_iv(A, iv)), present))
    return z3.Or(r) if r else z3.BoolVal(False)

def chk_contract(p, i, what='all'):
    """what: 'all' (C12), 'sets' (C07: membership of children typed by a node set), 'lifetimes' (C13)"""
    nd = p.sp.nodes[i]
    def pre(c):
        n, h = c.args[0], c.pre
        A = h.f(ACT, 0)
        o = [('a node of this type', z3.And(wf_node(p, c, h, i, n))), ('action', A >= 0), ('errors', h.f(ERR, 0) >= 0)]
        for k in kids(p, c, h, i, n):
            o.append(('sub-trees', z3.And(CE(k, A) >= 0, z3.Implies(k != 0, h.live(k)), z3.Or([h.f(NT, k) == p.nt(x.name) for x in p.sp.nodes] + [k == 0]))))
            if what != 'all':
                o.append(('nothing is wrong below', CE(k, A) == 0))
        for j, x in enumerate(nd.children):
            if what == 'lifetimes' or (what == 'sets' and single(x)):
                k = val(h, p.child(c, h, i, j, n))
                o.append(('child %s is of a permitted type' % x.name, z3.Or([k == 0] + [h.f(NT, k) == p.nt(y) for y in sorted(p.sp.types_of(x.type))])))
        return o
    def single(x):
        return not any(s.name.lower() == x.type.lower() for s in p.sp.nodesets)
    def parts(c):
        n, h = c.args[0], c.pre
        A = h.f(ACT, 0)
        b = [('the node is disallowed', lt_bad(p, nd.lts, A, z3.BoolVal(True)))]
        for j, x in enumerate(nd.children):
            k = val(h, p.child(c, h, i, j, n))
            al = p.sp.types_of(x.type)
            if what == 'all' or (what == 'sets' and not single(x)):
                b.append(('the type of child ' + x.name, z3.And(k != 0, z3.Not(z3.Or([h.f(NT, k) == p.nt(y) for y in sorted(al)])))))
            b.append(('the presence of child ' + x.name, lt_bad(p, x.lts, A, k != 0)))
        for j, x in enumerate(nd.attrs):
            if p.kind(x) in ('K_STR', 'K_LINK') and x.lts:
                b.append(('the presence of attribute ' + x.name, lt_bad(p, x.lts, A, val(h, p.attr(c, h, i, j, n)) != 0)))
        return b
    def ens(c):
        n, h = c.args[0], c.pre
        A = h.f(ACT, 0)
        more = c.post.f(ERR, 0) > h.f(ERR, 0)
        bs = parts(c)
        o = [('the node is returned', c.ret == n)]
        for (nm, f) in bs:
            if not z3.is_false(f):
                o.append(('a violation is reported: ' + nm, z3.Implies(f, more)))
        ks = kids(p, c, h, i, n)
        for j, k in enumerate(ks):
            o.append(('child %s is checked, its violations are reported' % nd.children[j].name, z3.Implies(z3.And(k != 0, CE(k, A) > 0), more)))
        o.append(('nothing is reported without a violation', z3.Implies(z3.Not(z3.Or([f for (_, f) in bs] + [z3.And(k != 0, CE(k, A) > 0) for k in ks])), z3.Not(more))))
        return o
    return Contract('CHK' + nd.name.lower(), pre, ens, lambda c: {ERR: lambda a: a == 0}, allow_abort=False, merge=True)

def add_err(eng, s, d):
    s.heap[ERR] = z3.Store(eng.harr(s, ERR), 0, z3.Select(eng.harr(s, ERR), 0) + d)

def b_chk_children(p, i):
    def b(eng, st, args, rt, hint, n):
        s = st.copy()
        c = frame0(eng)
        h = HV(eng, s)
        c2 = Ctx(eng, c.args, h, h, None, s)
        eng.obligation(s, args[0] == c.args[0], 'the children of the node itself are traversed', 'precondition')
        A = h.f(ACT, 0)
        for k in kids(p, c2, h, i, args[0]):
            add_err(eng, s, z3.If(k == 0, 0, CE(k, A)))
        return [(s, args[0])]
    return b

def b_chk_opt(eng, st, args, rt, hint, n):
    s = st.copy()
    A = z3.Select(eng.harr(s, ACT), 0)
    eng.assume(s, CE(args[0], A) >= 0)
    add_err(eng, s, z3.If(args[0] == 0, 0, CE(args[0], A)))
    return [(s, args[0])]

def b_cti(p):
    def b(eng, st, args, rt, hint, n):
        s = st.copy()
        add_err(eng, s, z3.If(args[0] == p.tu.enums['CTI_ERROR'], 1, 0))
        return [(s, IntV(0))]
    return b

def b_action(eng, st, args, rt, hint, n):
    return [(st, z3.Select(eng.harr(st, ACT), 0))]

# ------------------------------------------------------------------ dispatch tables (C03, C07, C14)
def initial(tu, name):
    """names in the initialiser of a global table, in order"""
    d = tu.globals[name]
    init = [x for x in d.get('inner', []) if x['kind'] == 'InitListExpr']
    if not init:
        raise front.Unsupported('table %s has no initialiser' % name)
    e = init[0]
    out = []
    for it in e.get('inner', e.get('array_filler', [])):
        x = it
        while x['kind'] != 'DeclRefExpr':
            if not x.get('inner'):
                x = None; break
            x = x['inner'][0]
        out.append(x['referencedDecl'] if x else None)
    return out

def table_facts(p, h):
    tu = p.tu
    o = []
    rows = initial(tu, 'ccn_trav_vtable')
    for t, d in enumerate(rows):
        if d is None:
            continue
        o.append(h.f('mem:**', z3.Int('&ccn_trav_vtable') + t) == z3.Int('&' + d['name']))
        o.append(z3.Int('&' + d['name']) != 0)
        for k, f in enumerate(initial(tu, d['name'])):
            o.append(h.f('mem:*func', z3.Int('&' + d['name']) + k) == (z3.Int('&fn:' + f['name']) if f else 0))
    return o

def data_facts(p, h, name):
    return [h.f('mem:*func', z3.Int('&' + name) + t) == (z3.Int('&fn:' + d['name']) if d else 0) for t, d in enumerate(initial(p.tu, name))]

def fn_distinct(p):
    fs = set()
    for d in initial(p.tu, 'ccn_trav_vtable'):
        if d:
            fs |= {x['name'] for x in initial(p.tu, d['name']) if x}
    fs |= {'TRAVnop', 'TRAVchildren', 'TRAVerror'}
    return z3.Distinct([z3.Int('&fn:' + f) for f in sorted(fs)])

def row_contract(p, what):
    """what: 'dispatch' (C03), 'handled' (C07), 'closure' (C14), 'cpy' (C09), 'free' (C10), 'check' (C12)"""
    sp = p.sp
    en = p.tu.enums
    def R(h, t, k):
        return h.f('mem:*func', h.f('mem:**', z3.Int('&ccn_trav_vtable') + t) + k)
    fn = lambda n: z3.Int('&fn:' + n)
    def ens(c):
        h, o = c.pre, []
        if what in ('free', 'cpy', 'check'):
            for (tn, pre) in (('TRAV_' + what, {'free': 'DEL', 'cpy': 'CPY', 'check': 'CHK'}[what]),):
                for n in sp.nodes:
                    o.append(('%s of %s is %s%s' % (tn, n.name, pre, n.name.lower()), R(h, en[tn], en['NT_' + n.name.upper()]) == fn(pre + n.name.lower())))
            return o
        for t in sp.travs:
            H = sp.handled(t)
            ti = en['TRAV_' + t.uid.upper()]
            for n in sp.nodes:
                r = R(h, ti, en['NT_' + n.name.upper()])
                if n.name.lower() in H:
                    if what in ('dispatch', 'handled'):
                        o.append(('%s: handler of %s' % (t.name, n.name), r == fn(t.uid.upper() + n.name.lower())))
                    continue
                if what in ('dispatch', 'handled'):
                    o.append(('%s: %s is not handled' % (t.name, n.name), z3.Or(r == fn('TRAVnop'), r == fn('TRAVchildren'))))
                if what == 'closure':
                    # left out only if no child can be handled or lead to a handled node
                    ch = sorted({x for cc in n.children for x in sp.types_of(cc.type)})
                    ok = z3.And([z3.BoolVal(x not in H) for x in ch] + [R(h, ti, en['NT_' + x.upper()]) == fn('TRAVnop') for x in ch])
                    o.append(('%s: %s is left out only if nothing handled can occur below it' % (t.name, n.name), z3.Or(r == fn('TRAVchildren'), z3.And(r == fn('TRAVnop'), ok))))
        o.append(('every traversal has a row', z3.And([h.f('mem:**', z3.Int('&ccn_trav_vtable') + en['TRAV_' + t.uid.upper()]) != 0 for t in sp.travs] + [z3.BoolVal(True)])))
        o.append(('lookup', c.ret == R(h, c.args[0], c.args[1])))
        return o
    return Contract('vt_row', lambda c: [('tables', z3.And(table_facts(p, c.pre))), ('functions', fn_distinct(p)), ('type', z3.And(0 <= c.args[0], c.args[0] < en.get('_TRAV_SIZE', 64), h_row(c)))], ens, lambda c: {}, allow_abort=False)

def h_row(c):
    return c.pre.f('mem:**', z3.Int('&ccn_trav_vtable') + c.args[0]) != 0

# ------------------------------------------------------------------ traversal data, single children (C03)
DONE, TARG, TRET = 'ghost:done', 'ghost:targ', 'ghost:tret'
TD = 'TRAV_DATA.*'
def data_locs(p, c, h, t):
    return [(x.name, p.acc(c, h, 'vt_d_%d_%d' % (t, j))) for j, x in enumerate(p.sp.travs[t].data)]

def b_current(eng, st, args, rt, hint, n):
    return [(st, frame0(eng).args[0])]

def b_hook(p, t):
    """the init or release function of the user"""
    def b(eng, st, args, rt, hint, n):
        s = st.copy()
        c = frame0(eng)
        h = HV(eng, s)
        c2 = Ctx(eng, c.args, h, h, None, s)
        D = h.f(TD, c.args[0])
        eng.obligation(s, z3.And(D != 0, h.live(D)), 'the data of the traversal is there', 'safety')
        if eng.frames[0]['name'].startswith('TRAVdataInit'):
            for (nm, l) in data_locs(p, c2, h, t):
                eng.obligation(s, val(h, l) == 0, 'data %s is zero before the init function runs' % nm, 'safety')
        s.heap[DONE] = z3.Store(h[DONE], 0, h.f(DONE, 0) + 1)
        return [(s, IntV(0))]
    return b

def data_contract(p, t, init):
    tr = p.sp.travs[t]
    def ens_init(c):
        h, pre, v = c.post, c.pre, c.args[0]
        D = h.f(TD, v)
        o = [('the data is a fresh block', z3.And(D != 0, z3.Not(pre.live(D)), h.live(D))), ('the init function runs once', h.f(DONE, 0) == pre.f(DONE, 0) + 1)]
        o.append(('nothing else is allocated', z3.ForAll([a_], z3.Implies(z3.And(h.live(a_), a_ != D), pre.live(a_)), patterns=[h.live(a_)])))
        L = data_locs(p, c, h, t)
        for (nm, l) in L:
            o.append(('data %s starts at the zero of its type' % nm, val(h, l) == 0))
        for u in range(len(L)):
            for w in range(u):
                if L[u][1][0] == L[w][1][0]:
                    o.append(('data %s and %s do not overlap' % (L[w][0], L[u][0]), L[u][1][1] != L[w][1][1]))
        return o
    def ens_free(c):
        h, pre, v = c.post, c.pre, c.args[0]
        D = pre.f(TD, v)
        return [('the release function runs once', h.f(DONE, 0) == pre.f(DONE, 0) + 1), ('the data is released', z3.Not(h.live(D))),
                ('nothing else is released', z3.ForAll([a_], z3.Implies(a_ != D, h.live(a_) == pre.live(a_)), patterns=[h.live(a_)]))]
    def pre(c):
        h, v = c.pre, c.args[0]
        D = h.f(TD, v)
        return [('a traversal', z3.And(v != 0, h.live(v)))] + ([] if init else [('its data', z3.And(D != 0, h.live(D), D != v))])
    def mods(c):
        pre, v = c.pre, c.args[0]
        d = {'live': lambda a: z3.Or(z3.Not(pre.live(a)), z3.And(z3.BoolVal(not init), a == pre.f(TD, v))), TD: lambda a: a == v, DONE: lambda a: a == 0}
        for (_, l) in data_locs(p, c, pre, t):
            d[l[0]] = lambda a: z3.Not(pre.live(a))
        return d
    return Contract('TRAVdata%s%s' % ('Init' if init else 'Free', tr.name), pre, ens_init if init else ens_free, mods, allow_abort=False)

def hook_rows(p):
    """which functions the runtime calls around a traversal"""
    sp, en = p.sp, p.tu.enums
    def mk(fn, table, kind):
        def ens(c):
            o = []
            for t in sp.travs:
                r = c.pre.f('mem:*func', z3.Int('&' + table) + en['TRAV_' + t.uid.upper()])
                o.append(('%s: %s' % (t.name, kind), r == z3.Int('&fn:' + ('TRAVdata%s%s' % (kind, t.name) if t.data else 'TRAVdataNOP'))))
            for x in ('TRAV_free', 'TRAV_cpy', 'TRAV_check'):
                o.append(('%s has no data' % x, c.pre.f('mem:*func', z3.Int('&' + table) + en[x]) == z3.Int('&fn:TRAVdataNOP')))
            return o
        return Contract(fn, lambda c: [('tables', z3.And(data_facts(p, c.pre, table)))], ens, lambda c: {}, allow_abort=False)
    return {'vt_init': mk('vt_init', 'trav_data_init_vtable', 'Init'), 'vt_fini': mk('vt_fini', 'trav_data_free_vtable', 'Free')}

def b_single_opt(eng, st, args, rt, hint, n):
    s = st.copy()
    h = HV(eng, s)
    r = eng.fresh('result')
    eng.assume(s, z3.Implies(args[0] == 0, r == 0))
    k = h.f(DONE, 0)
    s.heap[TARG] = z3.Store(h[TARG], k, args[0])
    s.heap[TRET] = z3.Store(h[TRET], k, r)
    s.heap[DONE] = z3.Store(h[DONE], 0, k + 1)
    return [(s, r)]

def child_names(sp):
    return sorted({c.name.lower() for n in sp.nodes for c in n.children})

def single_contract(p, name):
    """TRAV<child>: traverses that child of the node, and no other"""
    sp = p.sp
    has = [(i, j) for i, n in enumerate(sp.nodes) for j, c in enumerate(n.children) if c.name.lower() == name]
    fn = [f for f in p.tu.funcs if f.lower() == 'trav' + name]
    def pre(c):
        n, h = c.args[0], c.pre
        return [('a node with this child', z3.Or([z3.And(wf_node(p, c, h, i, n)) for (i, j) in has])), ('counter', h.f(DONE, 0) == 0)]
    def ens(c):
        n, h, pre = c.args[0], c.post, c.pre
        o = [('the node is returned', c.ret == n)]
        for (i, j) in has:
            is_ = h.f(NT, n) == p.nt(sp.nodes[i].name)
            v0 = val(pre, p.child(c, pre, i, j, n)); v = val(h, p.child(c, h, i, j, n))
            o.append(('child %s of %s is traversed once and replaced by the result' % (name, sp.nodes[i].name),
                      z3.Implies(is_, z3.If(v0 == 0, v == 0, z3.And(h.f(DONE, 0) == 1, h.f(TARG, 0) == v0, v == h.f(TRET, 0))))))
            for q in range(len(sp.nodes[i].children)):
                if q != j:
                    o.append(('child %s of %s is left alone' % (sp.nodes[i].children[q].name, sp.nodes[i].name), z3.Implies(is_, val(h, p.child(c, h, i, q, n)) == val(pre, p.child(c, pre, i, q, n)))))
        return o
    def mods(c):
        n, pre = c.args[0], c.pre
        return {SL: lambda a: a / 64 == pre.f(DATA, n), DONE: None, TARG: None, TRET: None}
    return Contract(fn[0] if fn else 'TRAV' + name, pre, ens, mods, allow_abort=False)

def units_trav(scratch, corpus, tag):
    us = []
    for (sp, d, vt) in programs(scratch, corpus, tag):
        us.append(unit('vtables.c', sp, d, vt, ['vt_row'], lambda p: {'vt_row': row_contract(p, 'dispatch')}, lambda p: {}))
        us.append(unit('vtables.c', sp, d, vt, ['vt_init', 'vt_fini'], hook_rows, lambda p: {}))
        for t, tr in enumerate(sp.travs):
            if tr.data:
                for init in (True, False):
                    us.append(unit('trav_data.c', sp, d, vt, ['TRAVdata%s%s' % ('Init' if init else 'Free', tr.name)],
                                   lambda p, t=t, init=init: {data_contract(p, t, init).name: data_contract(p, t, init)},
                                   lambda p, t=t: {'MEMmalloc': b_malloc, 'MEMfree': b_free, 'TRAVgetCurrent': b_current, p.sp.travs[t].uid.upper() + 'init': b_hook(p, t), p.sp.travs[t].uid.upper() + 'fini': b_hook(p, t)}, live=True))
        names = {}
        for n in sp.nodes:
            for c in n.children:
                names.setdefault(c.name.lower(), 'TRAV' + c.name)
        if names:
            us.append(unit('trav.c', sp, d, vt, sorted(names.values()), lambda p, names=names: {f: single_contract(p, k) for k, f in names.items()},
                           lambda p: {'TRAVopt': b_single_opt, 'TRAVdo': b_single_opt}))
    return us

# ------------------------------------------------------------------ units
def programs(scratch, corpus, tag):
    out = []
    for sp in corpus:
        d, vt = program(sp, scratch, tag)
        if vt:
            out.append((sp, d, vt))
    return out

def flags(d):
    return ['-DNDEBUG', '-I' + os.path.join(d, 'out'), '-I' + runner.REPO + '/palm/include', '-I' + runner.REPO + '/copra']

def unit(name, sp, d, vt, fns, mk, bi, live=False, noframe=(), **opts):
    def contracts(tus):
        p = P(sp, tus[0])
        return mk(p)
    def engine(tus):
        p = P(sp, tus[0])
        return dict(builtins=bi(p), opts=dict(live=live, safety=True, noframe=noframe, **opts))
    u = runner.Unit('%s generated for specification %d' % (name, sp.seed), [vt], contracts, functions=fns, flags=flags(d), engine=engine, budget=120)
    return u

def units_ast(scratch, corpus, tag):
    us = []
    for (sp, d, vt) in programs(scratch, corpus, tag):
        us.append(unit('ast.c', sp, d, vt, ['AST' + n.name.lower() for n in sp.nodes],
                       lambda p: {'AST' + n.name.lower(): ast_contract(p, i) for i, n in enumerate(p.sp.nodes)}, lambda p: {'MEMmalloc': b_malloc}))
    return us

def units_copy(scratch, corpus, tag):
    us = []
    for (sp, d, vt) in programs(scratch, corpus, tag):
        def mk(p):
            C = {'STRcpy': c_strcpy(p)}
            for i, n in enumerate(p.sp.nodes):
                C['CPY' + n.name.lower()] = cpy_contract(p, i)
            for f, opt in (('TRAVopt', True), ('TRAVdo', False), ('CCNcopy', True)):
                C[f] = copy_opt(p, f, opt)
            C['vt_row'] = row_contract(p, 'cpy')
            return C
        us.append(unit('ccn_copy.c', sp, d, vt, ['CPY' + n.name.lower() for n in sp.nodes] + ['vt_row'], mk, lambda p: {'MEMmalloc': b_malloc}, live=True))
    return us

def units_free(scratch, corpus, tag):
    us = []
    for (sp, d, vt) in programs(scratch, corpus, tag):
        for i, n in enumerate(sp.nodes):
            us.append(unit('ccn_free.c', sp, d, vt, ['DEL' + n.name.lower()], lambda p, i=i: {'DEL' + p.sp.nodes[i].name.lower(): del_contract(p, i)},
                           lambda p, i=i: {'MEMmalloc': b_malloc, 'MEMfree': b_free, 'TRAVchildren': b_del_children(p, i), 'TRAVopt': b_del_opt, 'TRAVdo': b_del_opt, 'CCNfree': b_del_opt}, live=True))
        us.append(unit('vtables.c', sp, d, vt, ['vt_row'], lambda p: {'vt_row': row_contract(p, 'free')}, lambda p: {}))
    return us

def units_check(scratch, corpus, tag, what='all'):
    us = []
    for (sp, d, vt) in programs(scratch, corpus, tag):
        for i, n in enumerate(sp.nodes):
            us.append(unit('ccn_check.c', sp, d, vt, ['CHK' + n.name.lower()], lambda p, i=i: {'CHK' + p.sp.nodes[i].name.lower(): chk_contract(p, i, what)},
                           lambda p, i=i: {'CTI': b_cti(p), 'TRAVchildren': b_chk_children(p, i), 'TRAVopt': b_chk_opt, 'TRAVdo': b_chk_opt, 'CCNgetCurrentActionId': b_action}))
        if what == 'all':
            us.append(unit('vtables.c', sp, d, vt, ['vt_row'], lambda p: {'vt_row': row_contract(p, 'check')}, lambda p: {}))
    return us

def units_tables(scratch, corpus, tag, what):
    return [unit('vtables.c', sp, d, vt, ['vt_row'], lambda p: {'vt_row': row_contract(p, what)}, lambda p: {}) for (sp, d, vt) in programs(scratch, corpus, tag)]
