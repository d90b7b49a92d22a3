"""C03: traversals (copra/src/dynamic_core.c).

Handlers, init and release functions are reached through the generated tables; a call of one is an
event.  The ghost log records the events of one level: which function, on what, with which traversal
on top of the stack, and what it returned (events of nested traversals belong to their own level).

    ghost:n                      number of events so far
    ghost:fn/arg/nt/cur/ct/ret   function, argument, its node type, current traversal, its type, result

Assumed of handlers (they are user code): they leave the traversal stack as they found it (proved here
for everything this file offers them), do not change the type of existing nodes, and do not write the
child slots of a node whose children are being traversed (PROT)."""
import z3
from ccv import runner
from ccv.exec import *

CUR, SL = 'g:current_traversal', 'mem:*ccn_node'
TT, PREV = 'ccn_trav.trav_type', 'ccn_trav.prev'
NT, CH, NC = 'ccn_node.nodetype', 'ccn_node.children', 'ccn_node.num_children'
NODE = 'ccn_node'
FT, PP = 'mem:*func', 'mem:**'
LOG = ['ghost:' + x for x in ('n', 'fn', 'arg', 'nt', 'cur', 'ct', 'ret')]
GN, GFN, GARG, GNT, GCUR, GCT, GRET = LOG
PROT = z3.Function('protected_slot', I, z3.BoolSort())
CNT = z3.Function('nonnull_children_before', I, I)       # number of non-NULL children before slot i
VT, IV, FV, PV = [z3.Int('&' + x) for x in ('ccn_trav_vtable', 'trav_data_init_vtable', 'trav_data_free_vtable', 'ccn_pass_vtable')]
j_ = z3.Int('j!t')

def g(h, k): return z3.Select(h[k], 0)
def cur(h): return h.f(CUR, 0)
def vt(h, t, nt): return h.f(FT, h.f(PP, VT + t) + nt)

def log_event(eng, s, f, arg, ret):
    h = HV(eng, s)
    n = g(h, GN)
    for k, v in ((GFN, f), (GARG, arg), (GNT, h.f(NT, arg)), (GCUR, cur(h)), (GCT, h.f(TT, cur(h))), (GRET, ret)):
        s.heap[k] = z3.Store(h[k], n, v)
    s.heap[GN] = z3.Store(h[GN], 0, n + 1)

def hav(eng, s, key, may):
    old = HV(eng, s)[key]
    new = eng.fresh('u_' + key, eng.sort_of_key(key))
    a = z3.Int('a!u')
    s.heap[key] = new
    eng.assume(s, z3.ForAll([a], z3.Implies(z3.Not(may(a)), z3.Select(new, a) == z3.Select(old, a)), patterns=[z3.Select(new, a)]))

NODEKEYS = [NODE + '.' + f for f in ('children', 'num_children', 'filename', 'begin_line', 'end_line', 'begin_col', 'end_col')]
PROTN = z3.Function('protected_node', I, z3.BoolSort())

def user_effect(eng, s):
    live = HV(eng, s)['live']
    hav(eng, s, SL, lambda a: z3.Not(PROT(a)))
    for k in (CH, NC):
        hav(eng, s, k, lambda a: z3.Not(PROTN(a)))
    # nodes may be made and released; the blocks of the traversal stack are not touched
    new = eng.fresh('live', AIB)
    a = z3.Int('a!l')
    eng.assume(s, z3.ForAll([a], z3.Implies(STK(a), z3.Select(new, a) == z3.Select(live, a)), patterns=[z3.Select(new, a)]))
    s.heap['live'] = new
STK = z3.Function('traversal_block', I, z3.BoolSort())      # blocks used by the traversal stack

def indirect(eng, st, ft, f, args, rt, callee):
    s = st.copy()
    h = HV(eng, s)
    fn = eng.frames[0]['name']
    r = eng.fresh('result')
    if fn in ('TRAVpush', 'TRAVpop'):
        eng.obligation(s, z3.And(args[0] == cur(h), args[0] != 0, h.live(args[0])), 'data functions get the live current traversal', 'safety')
        log_event(eng, s, f, args[0], IntV(0))
    elif len(args) == 1:
        log_event(eng, s, f, args[0], r)
        user_effect(eng, s)
    else:
        eng.obligation(s, z3.BoolVal(False), 'unexpected indirect call', 'safety')
    return [(s, r)]

def b_malloc(eng, st, args, rt, hint, n):
    s = st.copy()
    need = 0
    if hint and hint[0] == 'ptr' and hint[1][0] in ('struct', 'union'):
        need = eng.tu_of().sizeof(hint[1])
    eng.obligation(s, z3.And(args[0] >= max(need, 1)), 'the block is large enough', 'precondition')
    p = eng.fresh('new')
    eng.assume(s, z3.And(p > 0, z3.Not(z3.Select(eng.harr(s, 'live'), p)), STK(p)))
    s.heap['live'] = z3.Store(eng.harr(s, 'live'), p, True)
    s.allocs.append((p, None))
    return [(s, p)]

def b_free(eng, st, args, rt, hint, n):
    s = st.copy()
    p = args[0]
    eng.obligation(s, z3.Or(p == 0, z3.Select(eng.harr(s, 'live'), p)), 'released block is live', 'safety')
    s.heap['live'] = z3.Store(eng.harr(s, 'live'), p, False)
    return [(s, IntV(0))]

def ev(h, i, fn=None, arg=None, cu=None, ct=None, ret=None):
    r = []
    for k, v in ((GFN, fn), (GARG, arg), (GCUR, cu), (GCT, ct), (GRET, ret)):
        if v is not None:
            r.append(h.f(k, i) == v)
    return z3.And(r)

def logmods(c, k):
    """the log grows by at most k events, older ones stay"""
    n0 = g(c.pre, GN)
    d = {x: (lambda a: a >= n0) for x in LOG[1:]}
    d[GN] = lambda a: a == 0
    return d

def user_mods(c):
    d = {SL: lambda a: z3.Not(PROT(a)), CH: lambda a: z3.Not(PROTN(a)), NC: lambda a: z3.Not(PROTN(a)), 'live': lambda a: z3.Not(STK(a))}
    return d

NTRAV = z3.Int('number_of_traversals')
def istype(t): return z3.And(0 <= t, t < NTRAV)

def tables(h):
    """the generated dispatch table has a row for every traversal (proved of the generated tables)"""
    t = z3.Int('t!r')
    return z3.ForAll([t], z3.Implies(istype(t), h.f(PP, VT + t) != 0), patterns=[h.f(PP, VT + t)])

def top(h):
    return z3.And(cur(h) != 0, h.live(cur(h)), STK(cur(h)), istype(h.f(TT, cur(h))))

def kept_stack(c):
    """every block of the stack that was there keeps its contents"""
    return []

def push_ens(c):
    n, h = g(c.pre, GN), c.post
    t = c.args[0]
    return [('the new traversal is on top of the enclosing one', z3.And(cur(h) != 0, h.live(cur(h)), STK(cur(h)), z3.Not(c.pre.live(cur(h))), h.f(TT, cur(h)) == t, h.f(PREV, cur(h)) == cur(c.pre))),
            ('its data is initialised, once', z3.And(g(h, GN) == n + 1, ev(h, n, fn=h.f(FT, IV + t), arg=cur(h), cu=cur(h), ct=t)))]

def pop_ens(c):
    n, h, p = g(c.pre, GN), c.post, c.pre
    return [('the enclosing traversal is current again', cur(h) == p.f(PREV, cur(p))),
            ('its data is released, once', z3.And(g(h, GN) == n + 1, ev(h, n, fn=p.f(FT, FV + p.f(TT, cur(p))), arg=cur(p), cu=cur(p), ct=p.f(TT, cur(p))))),
            ('the block is released', z3.Not(h.live(cur(p))))]

def do_ens(c, node):
    n, h, p = g(c.pre, GN), c.post, c.pre
    t = p.f(TT, cur(p))
    return z3.And(g(h, GN) == n + 1, ev(h, n, fn=vt(p, t, p.f(NT, node)), arg=node, cu=cur(p), ct=t, ret=c.ret), h.f(GNT, n) == p.f(NT, node))

def opt_ens(c):
    n, h = g(c.pre, GN), c.post
    return [('a node is handed to its handler, NULL is skipped', z3.If(c.args[0] != 0, do_ens(c, c.args[0]), z3.And(g(h, GN) == n, c.ret == 0)))]

def start_ens(c, tree, t):
    n, h, p = g(c.pre, GN), c.post, c.pre
    T = h.f(GCUR, n)
    init = z3.And(ev(h, n, fn=p.f(FT, IV + t), arg=T, ct=t), z3.Not(p.live(T)), T != 0)
    e = z3.If(tree == 0, n + 1, n + 2)
    fini = ev(h, e, fn=p.f(FT, FV + t), arg=T, cu=T, ct=t)
    return [('data is initialised first, on a traversal of its own', init),
            ('the handler of the start node runs once, under this traversal', z3.Implies(tree != 0, ev(h, n + 1, fn=vt(p, t, p.f(NT, tree)), arg=tree, cu=T, ct=t))),
            ('the result is what the handler returned', z3.If(tree != 0, c.ret == h.f(GRET, n + 1), c.ret == 0)),
            ('data is released last', z3.And(fini, g(h, GN) == e + 1)),
            ('the enclosing traversal is restored', cur(h) == cur(p)),
            ('the traversal is released', z3.Not(h.live(T)))]

def start_mods(c):
    d = logmods(c, 3)
    d.update(user_mods(c))
    d['live'] = lambda a: z3.Or(z3.Not(STK(a)), z3.Not(c.pre.live(a)))
    d[CUR] = None
    for k in (TT, PREV, 'ccn_trav.*'):
        d[k] = lambda a: z3.Not(c.pre.live(a))
    return d

def ch_req(c):
    n, h = c.args[0], c.pre
    b, k = h.f(CH, n), h.f(NC, n)
    a = z3.Int('a!p')
    return [('a node', n != 0), ('children', z3.And(0 <= k, k < 2**31, z3.Implies(k > 0, b != 0))), ('traversal', top(h)), ('tables', tables(h)),
            ('its slots are left alone by handlers', z3.And(PROTN(n), z3.ForAll([a], z3.Implies(z3.And(b <= a, a < b + k), PROT(a)), patterns=[PROT(a)])))] + \
           [('count', CNT(0) == 0)]

def slot0(c, j): return z3.Select(c.pre[SL], c.pre.f(CH, c.args[0]) + j)

def visited(c, h, upto):
    """children before slot `upto` have been visited, in order, and their results stored"""
    n0, b, p = g(c.pre, GN), c.pre.f(CH, c.args[0]), c.pre
    t = p.f(TT, cur(p))
    j = j_
    body = z3.And(0 <= CNT(j), CNT(j) <= CNT(upto),
                  z3.If(slot0(c, j) == 0, h.f(SL, b + j) == 0,
                        z3.And(CNT(j) + 1 <= CNT(upto), h.f(SL, b + j) == h.f(GRET, n0 + CNT(j)), h.f(GARG, n0 + CNT(j)) == slot0(c, j),
                               h.f(GFN, n0 + CNT(j)) == vt(p, t, h.f(GNT, n0 + CNT(j))), h.f(GCUR, n0 + CNT(j)) == cur(p))))
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < upto), body), patterns=[CNT(j)])

def ch_ens(c):
    h, p, n = c.post, c.pre, c.args[0]
    k = p.f(NC, n)
    return [('the node itself is returned', c.ret == n),
            ('every non-NULL child is visited exactly once, none else', g(h, GN) == g(p, GN) + CNT(k)),
            ('children are visited in declaration order and their results stored', visited(c, h, k)),
            ('same traversal', cur(h) == cur(p))]

def ch_mods(c):
    d = logmods(c, 0)
    d.update(user_mods(c))
    d[SL] = None
    return d

def on_load(eng, s, key, addr):
    cx = eng.frames[0].get('ctx')
    if key == SL and eng.frames[0]['name'] == 'TRAVchildren' and cx is not None:
        j = z3.simplify(addr - cx.pre.f(CH, cx.args[0]))
        eng.assume(s, z3.Implies(j >= 0, CNT(j + 1) == CNT(j) + z3.If(slot0(cx, j) != 0, 1, 0)))
        eng.assume(s, CNT(j) == CNT(j))

def templates(L):
    c = L.fctx
    if c.contract.name != 'TRAVchildren':
        return []
    p, n = c.pre, c.args[0]
    k, b, n0 = p.f(NC, n), p.f(CH, n), g(p, GN)
    out = []
    idx = []
    for (v, nm, ty) in L.vars:
        if v in L.modified and ty[0] == 'int':
            idx.append((nm, lambda S, v=v: S.v(v)))
        if v in L.modified and ty[0] == 'ptr':
            idx.append((nm, lambda S, v=v: S.v(v) - b))
    a = z3.Int('a!s')
    for (nm, f) in idx:
        out.append(('%s within the children' % nm, lambda S, f=f: z3.And(0 <= f(S), f(S) <= k)))
        out.append(('one event per child before %s' % nm, lambda S, f=f: z3.And(g(S.h, GN) == n0 + CNT(f(S)), CNT(f(S)) >= 0)))
        out.append(('children before %s visited' % nm, lambda S, f=f: visited(c, S.h, f(S))))
        out.append(('children from %s untouched' % nm, lambda S, f=f: z3.ForAll([a], z3.Implies(z3.And(b + f(S) <= a, a < b + k), S.h.f(SL, a) == z3.Select(p[SL], a)), patterns=[S.h.f(SL, a)])))
    out.append(('node kept', lambda S: z3.And(S.h.f(CH, n) == b, S.h.f(NC, n) == k)))
    out.append(('traversal kept', lambda S: z3.And(cur(S.h) == cur(p), S.h.live(cur(p)), S.h.f(TT, cur(p)) == p.f(TT, cur(p)))))
    return out

def contracts(tus=None):
    en = tus[0].enums if tus else {'TRAV_cpy': 0, 'TRAV_free': 0}
    C = {}
    def add(name, req, ens, mods, **kw):
        C[name] = Contract(name, req, ens, mods, **kw)
        C[name].templates = templates
    wf = lambda c: [('stack', z3.Or(cur(c.pre) == 0, top(c.pre))), ('tables', tables(c.pre))]
    nolog = {}
    def push_mods(c):
        d = logmods(c, 1); d[CUR] = None
        for k in (TT, PREV, 'ccn_trav.*'):
            d[k] = lambda a: z3.Not(c.pre.live(a))
        d['live'] = lambda a: z3.Not(c.pre.live(a))
        return d
    add('TRAVpush', lambda c: wf(c) + [('type', istype(c.args[0]))], push_ens, push_mods, allow_abort=False)
    def pop_mods(c):
        d = logmods(c, 1); d[CUR] = None; d['live'] = lambda a: a == cur(c.pre)
        return d
    add('TRAVpop', wf, pop_ens, pop_mods, allow_abort=lambda c: cur(c.pre) == 0)
    add('TRAVgetCurrent', None, lambda c: [('the current traversal', c.ret == cur(c.pre))], lambda c: {}, allow_abort=False)
    def do_mods(c):
        d = logmods(c, 1); d.update(user_mods(c)); return d
    add('TRAVdo', lambda c: [('stack', top(c.pre)), ('tables', tables(c.pre)), ('a node', c.args[0] != 0)], lambda c: [('the handler of the node type runs, once, and its result is returned', do_ens(c, c.args[0]))], do_mods, allow_abort=False)
    add('TRAVopt', lambda c: [('stack', top(c.pre)), ('tables', tables(c.pre))], opt_ens, do_mods, allow_abort=False)
    add('TRAVnop', None, lambda c: [('the node itself', c.ret == c.args[0])], lambda c: {}, allow_abort=False)
    add('TRAVdataNOP', None, lambda c: [], lambda c: {}, allow_abort=False)
    add('TRAVchildren', ch_req, ch_ens, ch_mods, allow_abort=False)
    add('TRAVstart', lambda c: wf(c) + [('type', istype(c.args[1]))], lambda c: start_ens(c, c.args[0], c.args[1]), start_mods, allow_abort=False)
    add('CCNcopy', lambda c: wf(c) + [('type', istype(IntV(en['TRAV_cpy'])))], lambda c: start_ens(c, c.args[0], en['TRAV_cpy']), start_mods, allow_abort=False)
    add('CCNfree', lambda c: wf(c) + [('type', istype(IntV(en['TRAV_free'])))], lambda c: start_ens(c, c.args[0], en['TRAV_free']), start_mods, allow_abort=False)
    def pass_ens(c):
        n, h, p = g(c.pre, GN), c.post, c.pre
        return [('the pass function runs, once, on the tree, and its result is returned', z3.And(g(h, GN) == n + 1, h.f(GFN, n) == p.f(FT, PV + c.args[1]), h.f(GARG, n) == c.args[0], c.ret == h.f(GRET, n)))]
    add('PASSstart', lambda c: [('type', c.args[1] >= 0)], pass_ens, do_mods, allow_abort=False)
    add('TRAVerror', None, lambda c: [('does not return', z3.BoolVal(False))], lambda c: {})
    add('PASSerror', None, lambda c: [('does not return', z3.BoolVal(False))], lambda c: {})
    return C

BUILTINS = {'MEMmalloc': b_malloc, 'MEMfree': b_free}

def unit():
    return runner.Unit('copra/src/dynamic_core.c', ['copra/src/dynamic_core.c'], contracts, functions=sorted(contracts()),
                       engine=dict(builtins=BUILTINS, indirect=indirect, opts=dict(live=False, safety=True, on_load=on_load, noframe=('ghost:x',))))
