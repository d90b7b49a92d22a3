"""C16: the dependency graph of the attribute scheduler
(cocogen/frontend/attribute_scheduler/graph.c).

Hash tables are the maps that C01 proves them to be: M[pair(table, key)] is the value, 0 if
there is none; a table made with (hash_attribute, hash_attribute_equal) is keyed by
NA(node, attribute) of the key, one made by HTnew_Ptr by the key itself.

Ghosts: nown/npos of a graph node (its graph, its rank in the list), eown/epos of an entry of
the edge list, ent[edge] its entry, tg/tkey of an inner table (its graph, its first node).
E(a, b): the graph has an edge from a to b, i.e. M[pair(M[pair(edge_map, a)], b)] is one."""
import z3
from ccv import runner
from ccv.exec import *

PAIR, P1, P2 = z3.Function('pairG', I, I, I), z3.Function('pairG1', I, I), z3.Function('pairG2', I, I)
NA, NA1, NA2 = z3.Function('na', I, I, I), z3.Function('na1', I, I), z3.Function('na2', I, I)
T = z3.Function('transitive_relation', I, I, z3.BoolSort())
x, y, z_, k_ = z3.Ints('x!g y!g z!g k!g')
AXIOMS = [z3.ForAll([x, y], z3.And(P1(PAIR(x, y)) == x, P2(PAIR(x, y)) == y), patterns=[PAIR(x, y)]),
          z3.ForAll([x, y], z3.And(NA1(NA(x, y)) == x, NA2(NA(x, y)) == y), patterns=[NA(x, y)])]
M, KIND, TG, TKEY, NOWN, NPOS, EOWN, EPOS, ENT, REP, LIVE = ['ghost:' + q for q in ('map', 'kind', 'tg', 'tkey', 'nown', 'npos', 'eown', 'epos', 'ent', 'rep', 'taken')]
LOWN, LPOS, LWIT = ['ghost:' + q for q in ('lown', 'lpos', 'lwit')]
G, GI, N, ED, EL, NL = 'GRgraph', 'GRgraph_internal', 'GRnode', 'GRedge', 'GRedge_list', 'GRnode_list'
def sel(h, k, a): return z3.Select(h[k], a)
def fld(h, rec, f, p): return z3.Select(h[rec + '.' + f], p)
def am(h, g): return fld(h, GI, 'attribute_map', fld(h, G, 'internal', g))
def em(h, g): return fld(h, GI, 'edge_map', fld(h, G, 'internal', g))
def m(h, t, k): return sel(h, M, PAIR(t, k))
def inner(h, g, a): return m(h, em(h, g), a)
def ev(h, g, a, b): return m(h, inner(h, g, a), b)
def E(h, g, a, b): return z3.And(inner(h, g, a) != 0, ev(h, g, a, b) != 0)
def has(h, g, n): return z3.And(n > 0, sel(h, NOWN, n) == g)
def na(h, n): return NA(fld(h, N, 'node', n), fld(h, N, 'attribute', n))
FA = lambda vs, body, *pats: z3.ForAll(vs, body, patterns=[p if not isinstance(p, tuple) else z3.MultiPattern(*p) for p in pats])

def wf(h, g):
    O = lambda n: sel(h, NOWN, n) == g
    p = lambda n: sel(h, NPOS, n)
    nx = lambda n: fld(h, N, 'next', n)
    hd, last = fld(h, G, 'nodes', g), fld(h, GI, 'last_node', fld(h, G, 'internal', g))
    EO = lambda n: sel(h, EOWN, n) == g
    ep = lambda n: sel(h, EPOS, n)
    enx = lambda n: fld(h, EL, 'next', n)
    ehd, elast = fld(h, G, 'edges', g), fld(h, GI, 'last_edge', fld(h, G, 'internal', g))
    a_, e_ = am(h, g), em(h, g)
    v = ev(h, g, x, y)
    eof = lambda n: fld(h, EL, 'edge', n)
    fr = lambda e: fld(h, ED, 'first', e)
    se = lambda e: fld(h, ED, 'second', e)
    return [
        ('tables', z3.And(g > 0, fld(h, G, 'internal', g) != 0, a_ > 0, e_ > 0, a_ != e_, sel(h, LIVE, a_) == 1, sel(h, LIVE, e_) == 1, sel(h, KIND, a_) == 1, sel(h, KIND, e_) == 0, sel(h, TG, a_) == g, sel(h, TG, e_) == g, z3.Not(sel(h, NOWN, 0) == g), z3.Not(sel(h, EOWN, 0) == g))),
        ('first node', z3.If(hd == 0, FA([y], z3.Not(O(y)), sel(h, NOWN, y)), z3.And(O(hd), FA([y], z3.Implies(O(y), p(hd) <= p(y)), sel(h, NOWN, y))))),
        ('nodes', FA([x], z3.Implies(O(x), z3.And(x > 0, sel(h, LIVE, x) == 1)), sel(h, NOWN, x))),
        ('list of nodes', FA([x], z3.Implies(z3.And(O(x), nx(x) != 0), z3.And(O(nx(x)), p(nx(x)) > p(x))), nx(x))),
        ('no node is left out', FA([x, y], z3.Implies(z3.And(O(x), O(y), p(x) < p(y)), z3.And(nx(x) != 0, p(nx(x)) <= p(y))), (nx(x), sel(h, NOWN, y)))),
        ('ranks of nodes', FA([x, y], z3.Implies(z3.And(O(x), O(y), p(x) == p(y)), x == y), (p(x), p(y)))),
        ('last node', z3.Implies(hd != 0, z3.And(O(last), nx(last) == 0))),
        ('each node is found', FA([x], z3.Implies(O(x), m(h, a_, na(h, x)) == x), sel(h, NOWN, x))),
        ('found nodes are nodes', FA([x, y], z3.Implies(m(h, a_, NA(x, y)) != 0, z3.And(O(m(h, a_, NA(x, y))), fld(h, N, 'node', m(h, a_, NA(x, y))) == x, fld(h, N, 'attribute', m(h, a_, NA(x, y))) == y)), m(h, a_, NA(x, y)))),
        ('inner tables', FA([x], z3.Implies(inner(h, g, x) != 0, z3.And(inner(h, g, x) > 0, sel(h, LIVE, inner(h, g, x)) == 1, sel(h, KIND, inner(h, g, x)) == 0, sel(h, TG, inner(h, g, x)) == g, sel(h, TKEY, inner(h, g, x)) == x, inner(h, g, x) != a_, inner(h, g, x) != e_)), m(h, e_, x))),
        ('edges', FA([x, y], z3.Implies(E(h, g, x, y), z3.And(v > 0, sel(h, LIVE, v) == 1, fr(v) == x, se(v) == y, O(x), O(y), x != y, fld(h, ED, 'type', v) >= 0, fld(h, ED, 'type', v) <= 3)), v)),
        ('first edge', z3.If(ehd == 0, FA([y], z3.Not(EO(y)), sel(h, EOWN, y)), z3.And(EO(ehd), FA([y], z3.Implies(EO(y), ep(ehd) <= ep(y)), sel(h, EOWN, y))))),
        ('entries', FA([x], z3.Implies(EO(x), z3.And(x > 0, sel(h, LIVE, x) == 1, inner(h, g, fr(eof(x))) != 0, ev(h, g, fr(eof(x)), se(eof(x))) == eof(x), eof(x) != 0, sel(h, ENT, eof(x)) == x)), sel(h, EOWN, x))),
        ('each edge has an entry', FA([x, y], z3.Implies(E(h, g, x, y), z3.And(EO(sel(h, ENT, v)), eof(sel(h, ENT, v)) == v)), v)),
        ('list of edges', FA([x], z3.Implies(z3.And(EO(x), enx(x) != 0), z3.And(EO(enx(x)), ep(enx(x)) > ep(x))), enx(x))),
        ('no edge is left out', FA([x, y], z3.Implies(z3.And(EO(x), EO(y), ep(x) < ep(y)), z3.And(enx(x) != 0, ep(enx(x)) <= ep(y))), (enx(x), sel(h, EOWN, y)))),
        ('ranks of edges', FA([x, y], z3.Implies(z3.And(EO(x), EO(y), ep(x) == ep(y)), x == y), (ep(x), ep(y)))),
        ('last edge', z3.Implies(ehd != 0, z3.And(EO(elast), enx(elast) == 0))),
    ]

def nocycle(h, g):
    return ('no cycle of two', FA([x, y], z3.Not(z3.And(E(h, g, x, y), E(h, g, y, x))), (ev(h, g, x, y), ev(h, g, y, x))))

# ---- effects ----------------------------------------------------------------
def setg(eng, s, k, a, v): s.heap[k] = z3.Store(eng.harr(s, k), a, v)
def zero(v): return z3.is_int_value(v) and v.as_long() == 0

def alloc(eng, s):
    p = eng.fresh('alloc')
    h = HV(eng, s)
    eng.assume(s, z3.And(p > 0, sel(h, LIVE, p) == 0, sel(h, NOWN, p) == 0, sel(h, EOWN, p) == 0, sel(h, LOWN, p) == 0))
    eng.assume(s, FA([x], z3.And(sel(h, NOWN, x) != p, True), sel(h, NOWN, x)))
    eng.assume(s, FA([x], sel(h, EOWN, x) != p, sel(h, EOWN, x)))
    eng.assume(s, FA([x], sel(h, LOWN, x) != p, sel(h, LOWN, x)))
    eng.assume(s, FA([x], m(h, p, x) == 0, m(h, p, x)))                  # a table that is not there yet is empty
    eng.assume(s, z3.And([FA([x], z3.Not(z3.And(sel(h, M, x) == p)), sel(h, M, x))]))   # and no table refers to it
    for (q, _) in s.allocs:
        eng.assume(s, p != q)
    s.allocs.append((p, None))
    setg(eng, s, LIVE, p, 1)
    return p
def b_malloc(eng, st, args, rt, hint, n):
    s = st.copy()
    return [(s, alloc(eng, s))]

def new_table(kind):
    def b(eng, st, args, rt, hint, n):
        s = st.copy()
        if kind == 1:
            eng.obligation(s, z3.And(args[1] == z3.Int('&fn:hash_attribute'), args[2] == z3.Int('&fn:hash_attribute_equal')), 'a table keyed by node and attribute', 'precondition')
        eng.obligation(s, args[0] > 0, 'a table has buckets', 'precondition')
        t = alloc(eng, s)
        setg(eng, s, KIND, t, kind)
        return [(s, t)]
    return b
def keyof(h, t, k):
    return z3.If(sel(h, KIND, t) == 1, na(h, k), k)
def b_lookup(eng, st, args, rt, hint, n):
    s = st.copy()
    t, k = args
    eng.obligation(s, t != 0, 'lookup in a table', 'precondition')
    h = HV(eng, s)
    return [(s, m(h, t, keyof(h, t, k)))]
def owner_of_table(eng, s, t, v):
    pass
def b_insert(eng, st, args, rt, hint, n):
    s = st.copy()
    t, k, v = args
    eng.obligation(s, t != 0, 'insertion into a table', 'precondition')
    h = HV(eng, s)
    kk = keyof(h, t, k)
    eng.obligation(s, v != 0, 'a value', 'precondition')
    eng.obligation(s, m(h, t, kk) == 0, 'a new key', 'precondition')
    s.heap[M] = z3.Store(h[M], PAIR(t, kk), v)
    # a table put into another one: its graph and key are known from now on
    if any(v.eq(p) for (p, _) in s.allocs):
        s.heap[TG] = z3.Store(h[TG], v, sel(h, TG, t))
        s.heap[TKEY] = z3.Store(h[TKEY], v, kk)
    return [(s, eng.fresh('bool'))]

def on_store(eng, s, key, addr, val):
    h = HV(eng, s)
    fresh = lambda q: any(q.eq(p) for (p, _) in s.allocs)
    for (rec, head, own, pos) in ((N, 'nodes', NOWN, NPOS), (EL, 'edges', EOWN, EPOS)):
        if key == 'GRgraph.' + head and not zero(val) and fresh(val):
            old = fld(h, G, head, addr)
            s.heap[pos] = z3.Store(h[pos], val, z3.If(old == 0, 0, sel(h, pos, old) - 1))
            s.heap[own] = z3.Store(h[own], val, addr)
        if key == rec + '.next' and not zero(val) and fresh(val) and not fresh(addr):
            s.heap[pos] = z3.Store(h[pos], val, sel(h, pos, addr) + 1)
            s.heap[own] = z3.Store(h[own], val, sel(h, own, addr))
    if key == EL + '.edge' and fresh(addr):
        s.heap[ENT] = z3.Store(h[ENT], val, addr)
    if key in (GI + '.attribute_map', GI + '.edge_map') and fresh(val):
        s.heap[TG] = z3.Store(h[TG], val, addr - 1)          # the internal part lies behind its graph
    if key == 'mem:*GRedge_list' and fresh(val):
        e = fld(h, EL, 'edge', val)
        s.heap[REP] = z3.Store(h[REP], PAIR(fld(h, ED, 'first', e), fld(h, ED, 'second', e)), 1)
    if key == NL + '.next' and fresh(addr):
        s.heap[LOWN] = z3.Store(h[LOWN], addr, z3.If(val == 0, addr, sel(h, LOWN, val)))
        s.heap[LPOS] = z3.Store(h[LPOS], addr, z3.If(val == 0, 0, sel(h, LPOS, val) - 1))
    if key == NL + '.node' and fresh(addr):
        s.heap[LWIT] = z3.Store(h[LWIT], val, addr)

BUILTINS = {'MEMmalloc': b_malloc, 'MEMfree': lambda eng, st, args, rt, hint, n: [(st, IntV(0))], 'HTnew': new_table(1), 'HTnew_Ptr': new_table(0), 'HTlookup': b_lookup, 'HTinsert': b_insert}

# ---- contracts ----------------------------------------------------------------
def req(c):
    return wf(c.pre, c.args[0])
def same_graph(c, g=None):
    g = c.args[0] if g is None else g
    h, q = c.pre, c.post
    return [('the nodes stay', z3.And(fld(q, G, 'nodes', g) == fld(h, G, 'nodes', g), FA([x], z3.And((sel(q, NOWN, x) == g) == (sel(h, NOWN, x) == g), z3.Implies(sel(h, NOWN, x) == g, z3.And(sel(q, NPOS, x) == sel(h, NPOS, x), fld(q, N, 'node', x) == fld(h, N, 'node', x), fld(q, N, 'attribute', x) == fld(h, N, 'attribute', x)))), sel(q, NOWN, x))))]
def edges_are(c, f, g=None):
    g = c.args[0] if g is None else g
    return FA([x, y], E(c.post, g, x, y) == f(x, y), ev(c.post, g, x, y), ev(c.pre, g, x, y))
def kept(c, g=None):
    """an edge that was there keeps its type"""
    g = c.args[0] if g is None else g
    h, q = c.pre, c.post
    return FA([x, y], z3.Implies(E(h, g, x, y), z3.And(ev(q, g, x, y) == ev(h, g, x, y), fld(q, ED, 'type', ev(h, g, x, y)) == fld(h, ED, 'type', ev(h, g, x, y)))), ev(h, g, x, y))
def wfpost(c, g=None):
    g = c.args[0] if g is None else g
    return [('the graph stays well formed: ' + l, f) for (l, f) in wf(c.post, g)]

def err(c):
    """the error value returned"""
    tu = c.eng.tus[0]
    rec = 'GRerror'
    ty = fld(c.post, rec, 'type', c.ret)
    fs = tu.records[rec]
    u = [f[2] for f in fs if f[0] == 'data'][0]
    cy = [f[2] for f in tu.records[u] if f[0] == 'cycle'][0]
    return ty, fld(c.post, cy, 'n1', c.ret), fld(c.post, cy, 'n2', c.ret)

def build(tus=None):
    K = {}
    tu = tus[0] if tus else None
    def en(c, n): return c.eng.tus[0].enums[n]
    def add(name, r, e, mods=None, **kw):
        K[name] = Contract(name, r, e, mods or (lambda c: '*'), **kw)
        return K[name]
    add('GRnew', None, lambda c: [('a new graph', z3.And(c.ret > 0, sel(c.pre, LIVE, c.ret) != 1)), ('no nodes, no edges', z3.And(fld(c.post, G, 'nodes', c.ret) == 0, fld(c.post, G, 'edges', c.ret) == 0)),
            ('no edges are found', FA([x, y], z3.Not(E(c.post, c.ret, x, y)), ev(c.post, c.ret, x, y))), ('no nodes are found', FA([x, y], m(c.post, am(c.post, c.ret), NA(x, y)) == 0, m(c.post, am(c.post, c.ret), NA(x, y))))]
            + [('well formed: ' + l, f) for (l, f) in wf(c.post, c.ret)])
    add('GRnode_equal', lambda c: [('nodes', z3.And(c.args[0] > 0, c.args[1] > 0))], lambda c: [('same node and same attribute', (c.ret != 0) == (na(c.pre, c.args[0]) == na(c.pre, c.args[1])))], lambda c: {})
    add('GRadd_node', lambda c: req(c) + [('not there yet', m(c.pre, am(c.pre, c.args[0]), NA(c.args[1], c.args[2])) == 0)],
        lambda c: wfpost(c) + [('the new node', z3.And(c.ret > 0, sel(c.pre, LIVE, c.ret) != 1, fld(c.post, N, 'node', c.ret) == c.args[1], fld(c.post, N, 'attribute', c.ret) == c.args[2])),
            ('exactly one node more', FA([x], (sel(c.post, NOWN, x) == c.args[0]) == z3.Or(x == c.ret, sel(c.pre, NOWN, x) == c.args[0]), sel(c.post, NOWN, x))),
            ('the other nodes are as before', FA([x], z3.Implies(sel(c.pre, NOWN, x) == c.args[0], na(c.post, x) == na(c.pre, x)), sel(c.pre, NOWN, x))),
            ('no edge is added or lost', edges_are(c, lambda a, b: E(c.pre, c.args[0], a, b))), ('types of edges', kept(c))])
    add('GRlookup_node', req, lambda c: [('the node with that node and attribute, NULL if there is none', c.ret == m(c.pre, am(c.pre, c.args[0]), NA(c.args[1], c.args[2])))], lambda c: {})
    def visible(c, a, b, intra):
        e = ev(c.pre, c.args[0], a, b)
        t = fld(c.pre, ED, 'type', e)
        return z3.And(E(c.pre, c.args[0], a, b), z3.Or(intra, z3.And(t != en(c, 'GRintravisit'), t != en(c, 'GRintravisit_induced'))))
    add('GRlookup_edge', req, lambda c: [('the edge, NULL if there is none', c.ret == z3.If(visible(c, c.args[1], c.args[2], c.args[3] != 0), ev(c.pre, c.args[0], c.args[1], c.args[2]), 0))], lambda c: {})
    def add_edge_ens(c):
        g, a, b, ty = c.args
        t, n1, n2 = err(c)
        bad = z3.Or(a == b, E(c.pre, g, b, a))
        kinds = [('GRnormal', 'GR_error_cycle'), ('GRinduced', 'GR_error_cycle_induced'), ('GRintravisit', 'GR_error_cycle_intravisit'), ('GRintravisit_induced', 'GR_error_cycle_intravisit_induced')]
        return wfpost(c) + same_graph(c) + [('a cycle is reported exactly when the opposite edge is there, or both nodes are the same', (t != en(c, 'GR_error_none')) == bad),
                ('its kind', z3.Implies(bad, z3.And([z3.Implies(ty == en(c, k), t == en(c, e)) for (k, e) in kinds]))), ('the nodes on it', z3.Implies(bad, z3.And(n1 == a, n2 == b))),
                ('exactly that edge is added', edges_are(c, lambda p, q: z3.Or(E(c.pre, g, p, q), z3.And(z3.Not(bad), p == a, q == b)))),
                nocycle(c.post, g), ('its type', z3.Implies(z3.And(z3.Not(bad), z3.Not(E(c.pre, g, a, b))), fld(c.post, ED, 'type', ev(c.post, g, a, b)) == ty)), ('types of the others', kept(c))]
    add('GRadd_edge', lambda c: req(c) + [nocycle(c.pre, c.args[0]), ('nodes of the graph', z3.And(has(c.pre, c.args[0], c.args[1]), has(c.pre, c.args[0], c.args[2]))), ('type', z3.And(c.args[3] >= 0, c.args[3] <= 3))], add_edge_ens)
    add('GRadd_new_intra_node_dependency', lambda c: [('a list', c.args[0] > 0)], lambda c: intra_ens(c))
    def intra_ens(c):
        p, a, b = c.args
        n = z3.Select(c.post['mem:*GRedge_list'], p)
        e = fld(c.post, EL, 'edge', n)
        return [('a new entry in front', z3.And(n > 0, sel(c.pre, LIVE, n) != 1, fld(c.post, EL, 'next', n) == z3.Select(c.pre['mem:*GRedge_list'], p))),
                ('it is that dependency', z3.And(e > 0, sel(c.pre, LIVE, e) != 1, fld(c.post, ED, 'first', e) == a, fld(c.post, ED, 'second', e) == b, fld(c.post, ED, 'type', e) == en(c, 'GRinduced'))),
                ('reported', sel(c.post, REP, PAIR(a, b)) == 1)]
    def close_req(c):
        g = c.args[0]
        return req(c) + [('a list', c.args[1] > 0), nocycle(c.pre, g),
             ('T is transitive', FA([x, y, z_], z3.Implies(z3.And(T(x, y), T(y, z_)), T(x, z_)), (T(x, y), T(y, z_)))),
             ('T contains the edges', FA([x, y], z3.Implies(E(c.pre, g, x, y), T(x, y)), ev(c.pre, g, x, y)))]
    def close_ens(c):
        g, lst = c.args
        t, n1, n2 = err(c)
        ok = t == en(c, 'GR_error_none')
        h, q = c.pre, c.post
        new = lambda a, b: z3.And(E(q, g, a, b), z3.Not(E(h, g, a, b)))
        intra = lambda a, b: fld(h, N, 'node', a) == fld(h, N, 'node', b)
        out = [('the graph stays well formed: ' + l, f) for (l, f) in wf(q, g)] + [('no error, no cycle', z3.Implies(ok, nocycle(q, g)[1]))] + same_graph(c)
        return out + [('every edge lies in every transitive relation that contains the added ones', FA([x, y], z3.Implies(E(q, g, x, y), T(x, y)), ev(q, g, x, y))),
            ('no edge is lost', FA([x, y], z3.Implies(E(h, g, x, y), E(q, g, x, y)), ev(h, g, x, y))), ('types of the edges that were there', kept(c)),
            ('new edges are induced ones', FA([x, y], z3.Implies(new(x, y), fld(q, ED, 'type', ev(q, g, x, y)) == en(c, 'GRinduced')), ev(q, g, x, y))),
            ('without an error the edges are closed under transitivity', z3.Implies(ok, FA([x, y, z_], z3.Implies(z3.And(E(q, g, x, y), E(q, g, y, z_)), E(q, g, x, z_)), (ev(q, g, x, y), ev(q, g, y, z_))))),
            ('an error names a real cycle', z3.Implies(z3.Not(ok), z3.And(t == en(c, 'GR_error_cycle_induced'), E(q, g, n1, n2), E(q, g, n2, n1)))),
            ('exactly the new dependencies inside one node are handed out', FA([x, y], z3.Implies(z3.And(sel(h, NOWN, x) == g, sel(h, NOWN, y) == g), (sel(q, REP, PAIR(x, y)) == 1) == z3.Or(sel(h, REP, PAIR(x, y)) == 1, z3.And(new(x, y), intra(x, y)))), sel(q, REP, PAIR(x, y))))]
    K['GRclose_transitivity'] = Contract('GRclose_transitivity', close_req, close_ens, lambda c: '*', templates=close_templates, inline=['GRadd_new_intra_node_dependency'])
    def deps(own_node):
        def e(c):
            g, n = c.args
            q = c.post
            L = sel(q, LOWN, c.ret)
            ok = lambda d: z3.And(sel(c.pre, NOWN, d) == g, d != n, visible(c, d, n, z3.BoolVal(False)), *([fld(c.pre, N, 'node', d) == fld(c.pre, N, 'node', n)] if own_node else []))
            nx, p = lambda t: fld(q, NL, 'next', t), lambda t: sel(q, LPOS, t)
            O = lambda t: sel(q, LOWN, t) == L
            d = lambda t: fld(q, NL, 'node', t)
            return [('nothing is listed only if there is nothing to list', z3.Implies(c.ret == 0, FA([x], z3.Not(ok(x)), ev(c.pre, g, x, n)))),
                ('a new list', z3.Implies(c.ret != 0, z3.And(c.ret > 0, L > 0, sel(c.pre, LIVE, c.ret) != 1))),
                ('all listed are dependencies', z3.Implies(c.ret != 0, FA([x], z3.Implies(O(x), ok(d(x))), d(x)))),
                ('all dependencies are listed', z3.Implies(c.ret != 0, FA([x], z3.Implies(ok(x), z3.And(O(sel(q, LWIT, x)), d(sel(q, LWIT, x)) == x)), ev(c.pre, g, x, n)))),
                ('the list starts with the first', z3.Implies(c.ret != 0, FA([x], z3.Implies(O(x), p(c.ret) <= p(x)), sel(q, LOWN, x)))),
                ('it is a list', z3.Implies(c.ret != 0, FA([x], z3.Implies(z3.And(O(x), nx(x) != 0), z3.And(O(nx(x)), p(nx(x)) > p(x))), nx(x)))),
                ('nothing in it is left out', z3.Implies(c.ret != 0, FA([x, y], z3.Implies(z3.And(O(x), O(y), p(x) < p(y)), z3.And(nx(x) != 0, p(nx(x)) <= p(y))), (nx(x), sel(q, LOWN, y)))))]
        return e
    for nm, own_node in (('GRget_inter_node_dependencies', True), ('GRget_node_dependencies', False)):
        add(nm, lambda c: req(c) + [('a node of the graph', has(c.pre, c.args[0], c.args[1])), ('ghost', sel(c.pre, LOWN, 0) == 0)], deps(own_node), lambda c: {k: None for k in (NL + '.node', NL + '.next', LOWN, LPOS, LWIT, LIVE)}, templates=deps_templates(own_node))
    # static helpers, where they are there
    fns = tu.funcs if tu else None
    if fns is None or 'HTlookup_edge' in fns:
        def le(c):
            t = m(c.pre, c.args[0], c.args[1])
            return [('the edge, NULL if there is none', c.ret == z3.If(t == 0, 0, m(c.pre, t, c.args[2])))]
        add('HTlookup_edge', lambda c: [('a table of tables', z3.And(c.args[0] != 0, sel(c.pre, KIND, c.args[0]) == 0, z3.Implies(m(c.pre, c.args[0], c.args[1]) != 0, sel(c.pre, KIND, m(c.pre, c.args[0], c.args[1])) == 0)))], le, lambda c: {})
    if fns is None or 'add_edge_internal' in fns:
        def ae(c):
            g, a, b, ty = c.args
            return wfpost(c) + same_graph(c) + [('the new edge', z3.And(c.ret == ev(c.post, g, a, b), sel(c.pre, LIVE, c.ret) != 1)), ('exactly that edge is added', edges_are(c, lambda p, q: z3.Or(E(c.pre, g, p, q), z3.And(p == a, q == b)))),
                ('its type', fld(c.post, ED, 'type', ev(c.post, g, a, b)) == ty), ('types of the others', kept(c)), ('taken stays taken', FA([x], z3.Implies(sel(c.pre, LIVE, x) == 1, sel(c.post, LIVE, x) == 1), sel(c.post, LIVE, x))), ('tables', FA([x], z3.Implies(inner(c.pre, g, x) != 0, inner(c.post, g, x) == inner(c.pre, g, x)), m(c.post, em(c.pre, g), x)))]
        add('add_edge_internal', lambda c: req(c) + [('nodes of the graph', z3.And(has(c.pre, c.args[0], c.args[1]), has(c.pre, c.args[0], c.args[2]), c.args[1] != c.args[2])), ('type', z3.And(c.args[3] >= 0, c.args[3] <= 3)),
             ('no such edge yet', z3.Not(E(c.pre, c.args[0], c.args[1], c.args[2])))], ae)
        K['add_edge_internal'].modifies = lambda c: {k: None for k in (M, TG, TKEY, KIND, EOWN, EPOS, ENT, LIVE, G + '.edges', GI + '.last_edge', EL + '.edge', EL + '.next', ED + '.first', ED + '.second', ED + '.type')}
    return K

def deps_templates(own_node):
    def t(L):
        c = L.fctx
        g, n = c.args
        pre = c.pre
        en = c.eng.tus[0].enums
        def vis(d):
            e = ev(pre, g, d, n)
            ty = fld(pre, ED, 'type', e)
            return z3.And(sel(pre, NOWN, d) == g, d != n, E(pre, g, d, n), ty != en['GRintravisit'], ty != en['GRintravisit_induced'], *([fld(pre, N, 'node', d) == fld(pre, N, 'node', n)] if own_node else []))
        out = [('taken stays taken', lambda S: FA([x], z3.Implies(sel(pre, LIVE, x) == 1, sel(S.h, LIVE, x) == 1), sel(S.h, LIVE, x)))]
        run = [(k, nm) for (k, nm, ty) in L.vars if ty[0] == 'ptr' and ty[1][:2] == ('struct', N) and k in L.modified]
        lst = [(k, nm) for (k, nm, ty) in L.vars if ty[0] == 'ptr' and ty[1][:2] == ('struct', NL) and k in L.modified]
        for (r, rn) in run:
            out.append((rn + ' is a node', lambda S, r=r: z3.Or(S.v(r) == 0, sel(pre, NOWN, S.v(r)) == g)))
            bef = lambda S, r, d: z3.Or(S.v(r) == 0, sel(pre, NPOS, d) < sel(pre, NPOS, S.v(r)))
            for (l, ln) in lst:
                def own(S, l): return sel(S.h, LOWN, S.v(l))
                nx, p = lambda S, t: fld(S.h, NL, 'next', t), lambda S, t: sel(S.h, LPOS, t)
                O = lambda S, l, t: z3.And(S.v(l) != 0, sel(S.h, LOWN, t) == own(S, l))
                d = lambda S, t: fld(S.h, NL, 'node', t)
                out.append(('list named after an entry', lambda S, l=l: z3.And(sel(S.h, LOWN, 0) == 0, z3.Implies(S.v(l) != 0, z3.And(own(S, l) > 0, S.v(l) > 0, sel(pre, LIVE, S.v(l)) != 1)))))
                out.append(('entries are new', lambda S, l=l: FA([x], z3.Implies(O(S, l, x), z3.And(sel(S.h, LIVE, x) == 1, x > 0)), sel(S.h, LOWN, x))))
                out.append(('all listed are dependencies', lambda S, l=l: FA([x], z3.Implies(O(S, l, x), vis(d(S, x))), d(S, x))))
                out.append(('listed before ' + rn, lambda S, l=l, r=r: FA([x], z3.Implies(z3.And(vis(x), bef(S, r, x)), z3.And(O(S, l, sel(S.h, LWIT, x)), d(S, sel(S.h, LWIT, x)) == x)), ev(pre, g, x, n))))
                out.append(('first', lambda S, l=l: FA([x], z3.Implies(O(S, l, x), p(S, S.v(l)) <= p(S, x)), sel(S.h, LOWN, x))))
                out.append(('list', lambda S, l=l: FA([x], z3.Implies(z3.And(O(S, l, x), nx(S, x) != 0), z3.And(O(S, l, nx(S, x)), p(S, nx(S, x)) > p(S, x))), nx(S, x))))
                out.append(('no gap', lambda S, l=l: FA([x, y], z3.Implies(z3.And(O(S, l, x), O(S, l, y), p(S, x) < p(S, y)), z3.And(nx(S, x) != 0, p(S, nx(S, x)) <= p(S, y))), (nx(S, x), sel(S.h, LOWN, y)))))
                out.append(('the last is the oldest', lambda S, l=l: FA([x], z3.Implies(z3.And(O(S, l, x), d(S, x) > 0), sel(pre, NPOS, d(S, x)) < z3.If(S.v(r) == 0, sel(pre, NPOS, d(S, x)) + 1, sel(pre, NPOS, S.v(r)))), d(S, x))))
        return out
    return t

def close_templates(L):
    c = L.fctx
    g, lst = c.args
    pre = c.pre
    en = c.eng.tus[0].enums
    out = []
    for i in range(len(wf(pre, g))):
        out.append((wf(pre, g)[i][0], lambda S, i=i: wf(S.h, g)[i][1]))
    out.append(('no cycle of two', lambda S: nocycle(S.h, g)[1]))
    def nodes_same(S):
        h, q = pre, S.h
        return z3.And(fld(q, G, 'nodes', g) == fld(h, G, 'nodes', g), q[NOWN] == h[NOWN], q[NPOS] == h[NPOS], q[N + '.node'] == h[N + '.node'], q[N + '.attribute'] == h[N + '.attribute'], q[N + '.next'] == h[N + '.next'])
    out.append(('nodes as before', nodes_same))
    for k in (G + '.nodes', G + '.internal', NOWN, NPOS, N + '.node', N + '.attribute', N + '.next', GI + '.attribute_map', GI + '.edge_map'):
        if k in L.mkeys:
            out.append((k + ' as before', lambda S, k=k: S.h[k] == pre[k]))
    out.append(('edges stay', lambda S: FA([x, y], z3.Implies(E(pre, g, x, y), z3.And(inner(S.h, g, x) == inner(pre, g, x), ev(S.h, g, x, y) == ev(pre, g, x, y), fld(S.h, ED, 'type', ev(pre, g, x, y)) == fld(pre, ED, 'type', ev(pre, g, x, y)))), ev(pre, g, x, y))))
    out.append(('edges in T', lambda S: FA([x, y], z3.Implies(E(S.h, g, x, y), T(x, y)), ev(S.h, g, x, y))))
    new = lambda S, a, b: z3.And(E(S.h, g, a, b), z3.Not(E(pre, g, a, b)))
    out.append(('new edges are induced', lambda S: FA([x, y], z3.Implies(new(S, x, y), fld(S.h, ED, 'type', ev(S.h, g, x, y)) == en['GRinduced']), ev(S.h, g, x, y))))
    out.append(('reported', lambda S: FA([x, y], z3.Implies(z3.And(sel(pre, NOWN, x) == g, sel(pre, NOWN, y) == g), (sel(S.h, REP, PAIR(x, y)) == 1) == z3.Or(sel(pre, REP, PAIR(x, y)) == 1, z3.And(new(S, x, y), fld(pre, N, 'node', x) == fld(pre, N, 'node', y)))), sel(S.h, REP, PAIR(x, y)))))
    ptrs = [(k, nm) for (k, nm, ty) in L.vars if ty[0] == 'ptr' and ty[1][:2] == ('struct', N)]
    # which of the variables run along the nodes
    run = [(k, nm) for (k, nm) in ptrs]
    ints = [(k, nm) for (k, nm, ty) in L.vars if ty[0] in ('int', 'bool')]
    for (k, nm) in run:
        out.append((nm + ' is a node', lambda S, k=k: z3.Or(S.v(k) == 0, sel(S.h, NOWN, S.v(k)) == g)))
    errs = [a for a in (c.eng.frames[0].get('localaddrs', []))]
    for a in errs[:1]:
        out.append(('no error so far', lambda S, a=a: fld(S.h, 'GRerror', 'type', a) == en['GR_error_none']))
    O = lambda S, n: sel(S.h, NOWN, n) == g
    bef = lambda S, k, n: z3.Or(S.v(k) == 0, sel(S.h, NPOS, n) < sel(S.h, NPOS, S.v(k)))
    step = lambda S, a, b, d: z3.Implies(z3.And(O(S, a), O(S, b), O(S, d), a != b, E(S.h, g, a, d), E(S.h, g, d, b)), E(S.h, g, a, b))
    def quiet(S, cf): return truth_is0(S.v(cf))
    def truth_is0(v): return v == 0
    for (cf, cn) in ints:
        out.append((cn + ' is a truth value', lambda S, cf=cf: z3.And(S.v(cf) >= 0, S.v(cf) <= 1)))
        for (k, nm) in run:
            if k not in L.modified:
                continue
            outer = [(k1, n1) for (k1, n1) in run[:run.index((k, nm))] if k1 not in L.modified]
            if not outer:
                out.append(('%s or closed before %s' % (cn, nm), lambda S, cf=cf, k=k: z3.Implies(S.v(cf) == 0, FA([x, y, z_], z3.Implies(bef(S, k, x), step(S, x, y, z_)), (ev(S.h, g, x, z_), ev(S.h, g, z_, y))))))
            if len(outer) == 1:
                k1, n1 = outer[0]
                out.append(('%s or closed before %s from %s' % (cn, nm, n1), lambda S, cf=cf, k=k, k1=k1: z3.Implies(S.v(cf) == 0, FA([y, z_], z3.Implies(bef(S, k, y), step(S, S.v(k1), y, z_)), (ev(S.h, g, S.v(k1), z_), ev(S.h, g, z_, y))))))
        # what was closed before an outer variable stays so
        outer = [r for r in run if r[0] not in L.modified]
        for (k, nm) in outer[:1]:
            if k in L.modified:
                continue
            out.append(('%s or closed before %s (kept)' % (cn, nm), lambda S, cf=cf, k=k: z3.Implies(S.v(cf) == 0, FA([x, y, z_], z3.Implies(bef(S, k, x), step(S, x, y, z_)), (ev(S.h, g, x, z_), ev(S.h, g, z_, y))))))
            for (k1, n1) in outer[1:2]:
                out.append(('%s or closed before %s from %s (kept)' % (cn, n1, nm), lambda S, cf=cf, k=k1, k1=k: z3.Implies(S.v(cf) == 0, FA([y, z_], z3.Implies(bef(S, k, y), step(S, S.v(k1), y, z_)), (ev(S.h, g, S.v(k1), z_), ev(S.h, g, z_, y))))))
    # the innermost one
    for (k, nm) in run:
        if k not in L.modified:
            continue
        for i1, (k1, n1) in enumerate(run):
            for (k2, n2) in run[i1 + 1:]:
                if len({k, k1, k2}) < 3 or k1 in L.modified or k2 in L.modified:
                    continue
                out.append(('no way from %s to %s through nodes before %s' % (n1, n2, nm), lambda S, k=k, k1=k1, k2=k2: FA([z_], z3.Implies(bef(S, k, z_), step(S, S.v(k1), S.v(k2), z_)), ev(S.h, g, S.v(k1), z_))))
                out.append(('no edge from %s to %s yet' % (n1, n2), lambda S, k1=k1, k2=k2: z3.And(S.v(k1) != S.v(k2), z3.Not(E(S.h, g, S.v(k1), S.v(k2))))))
    return out

SRC = 'cocogen/frontend/attribute_scheduler/graph.c'
LAW = """#include "%s/%s"
bool vt_same_key(struct GRnode *a, struct GRnode *b) { return hash_attribute_equal(a, b); }
bool vt_same_hash(struct GRnode *a, struct GRnode *b) { return hash_attribute(a) == hash_attribute(b); }
"""
def law():
    r = lambda c: [('keys', z3.And(c.args[0] > 0, c.args[1] > 0))]
    eq = lambda c: na(c.pre, c.args[0]) == na(c.pre, c.args[1])
    return {'vt_same_key': Contract('vt_same_key', r, lambda c: [('hash_attribute_equal compares node and attribute', (c.ret != 0) == eq(c))], lambda c: {}),
            'vt_same_hash': Contract('vt_same_hash', r, lambda c: [('equal keys have equal hashes', z3.Implies(eq(c), c.ret != 0))], lambda c: {})}
def unit(functions=None):
    return runner.Unit(SRC, [SRC], build, functions=functions,
        engine=dict(axioms=AXIOMS, builtins=BUILTINS, opts=dict(live=False, safety=True, on_store=on_store, fresh_frame=False, lean_loops=True, light=False)))
def units(scratch):
    import os
    os.makedirs(scratch, exist_ok=True)
    w = os.path.join(scratch, 'graph_law.c')
    open(w, 'w').write(LAW % (runner.REPO, SRC))
    return [unit(), runner.Unit('keys of the attribute map', [w], law, engine=dict(axioms=AXIOMS, builtins=BUILTINS, opts=dict(live=False, safety=True)))]
