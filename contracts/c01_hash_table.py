"""C01: the palm hash table is an exact finite map.

Abstract view.  Ghost fields per entry: own (the table it belongs to), bkt (its
bucket), pos (its rank in the bucket's list), idx (its number in 0..elements-1),
and per table `at` (the inverse of idx).  The map of table t is
{ key(e) -> value(e) | own(e) = t }."""
import z3
from ccv.exec import *

E, T, IT = 'htable_entry', 'htable', 'htable_iter'
ARR = 'mem:*htable_entry'
HASH = z3.Function('hash', I, I, I)             # hash function pointer, key -> hash
EQ = z3.Function('keyeq', I, I, I, z3.BoolSort())
APP1 = z3.Function('apply1', I, I, I)
APP2 = z3.Function('apply2', I, I, I, I)
APP3 = z3.Function('apply3', I, I, I, I, I)
GH = ['own', 'bkt', 'pos', 'idx', 'at', 'last']
ATF = lambda t, i: t * 0 + i   # at is indexed by a pair; see at()

x, y, f_, k1, k2, k3, i_ = z3.Ints('x y f k1 k2 k3 i')
PAIR = z3.Function('pair', I, I, I)
PL = z3.Function('pairL', I, I, I)
P1 = z3.Function('pair1', I, I)
P2 = z3.Function('pair2', I, I)

AXIOMS = [
    z3.ForAll([f_, k1], EQ(f_, k1, k1), patterns=[EQ(f_, k1, k1)]),
    z3.ForAll([f_, k1, k2], EQ(f_, k1, k2) == EQ(f_, k2, k1), patterns=[EQ(f_, k1, k2)]),
    z3.ForAll([f_, k1, k2, k3], z3.Implies(z3.And(EQ(f_, k1, k2), EQ(f_, k2, k3)), EQ(f_, k1, k3)),
              patterns=[z3.MultiPattern(EQ(f_, k1, k2), EQ(f_, k2, k3))]),
    z3.ForAll([f_, k1], z3.And(HASH(f_, k1) >= 0, HASH(f_, k1) < 2**64), patterns=[HASH(f_, k1)]),
    z3.ForAll([x, y], z3.And(P1(PAIR(x, y)) == x, P2(PAIR(x, y)) == y), patterns=[PAIR(x, y)]),
    z3.ForAll([x, y], z3.And(P1(PL(x, y)) == x, P2(PL(x, y)) == y), patterns=[PL(x, y)]),
]
# the client obligation: equal keys have equal hashes, for the pair of functions of one table
COMPAT = z3.Function('compat', I, I, z3.BoolSort())
AXIOMS.append(z3.ForAll([f_, x, k1, k2], z3.Implies(z3.And(COMPAT(x, f_), EQ(f_, k1, k2)), HASH(x, k1) == HASH(x, k2)),
                        patterns=[z3.MultiPattern(COMPAT(x, f_), EQ(f_, k1, k2))]))

def g(h, name, p):
    return h.f('ghost:' + name, p)

def at(h, t, i):
    return h.f('ghost:at', PAIR(t, i))

def own(h, e, t):
    return g(h, 'own', e) == t

def WF(h, t, count=True):
    """well-formedness of table t, as a list of labelled formulas"""
    sz = h.f(T + '.size', t); ent = h.f(T + '.entries', t); n = h.f(T + '.elements', t)
    H = h.f(T + '.hash_f', t); Q = h.f(T + '.is_equal_f', t)
    nx = lambda e: h.f(E + '.next', e)
    key = lambda e: h.f(E + '.key', e)
    b = lambda e: g(h, 'bkt', e)
    p = lambda e: g(h, 'pos', e)
    O = lambda e: own(h, e, t)
    hd = lambda a: z3.Select(h[ARR], a)
    G = lambda nm, e: z3.Select(h['ghost:' + nm], e)
    own_x = G('own', x); own_y = G('own', y)
    out = [
        ('table allocated', z3.And(t > 0, h.live(t), ent > 0, h.live(ent), ent != t, sz > 0, sz < 2**60, n >= 0, COMPAT(H, Q),
                                   g(h, 'own', t) == 0, g(h, 'own', ent) == 0)),
        ('bucket heads', z3.ForAll([x], z3.Implies(z3.And(ent <= x, x < ent + sz, hd(x) != 0),
                                                   z3.And(O(hd(x)), b(hd(x)) == x - ent)), patterns=[hd(x)])),
        ('heads first', z3.ForAll([y], z3.Implies(O(y), z3.And(hd(ent + b(y)) != 0, p(hd(ent + b(y))) <= p(y), b(hd(ent + b(y))) == b(y), O(hd(ent + b(y))))),
                                  patterns=[own_y])),
        ('entries', z3.ForAll([x], z3.Implies(O(x), z3.And(x > 0, h.live(x), x != t, x != ent, 0 <= b(x), b(x) < sz,
                                                           b(x) == UMOD(HASH(H, key(x)), sz),
                                                           p(x) <= G('last', PL(t, b(x))))), patterns=[own_x])),
        ('next', z3.ForAll([x], z3.Implies(z3.And(O(x), nx(x) != 0), z3.And(O(nx(x)), b(nx(x)) == b(x), p(nx(x)) > p(x))),
                           patterns=[nx(x)])),
        ('no gap', z3.ForAll([x, y], z3.Implies(z3.And(O(x), O(y), b(x) == b(y), p(x) < p(y)),
                                                z3.And(nx(x) != 0, p(nx(x)) <= p(y))),
                             patterns=[z3.MultiPattern(nx(x), own_y)])),
        ('order injective', z3.ForAll([x, y], z3.Implies(z3.And(O(x), O(y), b(x) == b(y), p(x) == p(y)), x == y),
                                      patterns=[z3.MultiPattern(G('pos', x), G('pos', y))])),
        ('keys unique', z3.ForAll([x, y], z3.Implies(z3.And(O(x), O(y), EQ(Q, key(x), key(y))), x == y),
                                  patterns=[z3.MultiPattern(own_x, own_y)])),
    ]
    if count == 'empty':
        out += [('count: zero iff empty', z3.And(z3.Implies(n > 0, O(at(h, t, 0))),
                                                 z3.ForAll([x], z3.Implies(O(x), n > 0), patterns=[own_x])))]
    elif count:
        out += [
            ('count: numbering', z3.ForAll([x], z3.Implies(O(x), z3.And(0 <= G('idx', x), G('idx', x) < n, at(h, t, G('idx', x)) == x)),
                                           patterns=[own_x])),
            ('count: inverse', z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n),
                                                          z3.And(O(at(h, t, i_)), G('idx', at(h, t, i_)) == i_)),
                                         patterns=[PAIR(t, i_)])),
            ('count: non-empty', z3.Implies(n > 0, z3.And(PAIR(t, 0) == PAIR(t, 0), O(at(h, t, 0))))),
        ]
    return out

def present(h, t, k):
    Q = h.f(T + '.is_equal_f', t)
    return z3.Exists([x], z3.And(own(h, x, t), EQ(Q, h.f(E + '.key', x), k)))

def absent(h, t, k):
    Q = h.f(T + '.is_equal_f', t)
    return z3.ForAll([x], z3.Implies(own(h, x, t), z3.Not(EQ(Q, h.f(E + '.key', x), k))),
                     patterns=[g(h, 'own', x)])

def req_wf(c):
    return WF(c.pre, c.args[0]) + [('fewer than 2^60 entries', c.pre.f(T + '.elements', c.args[0]) < 2**60)]

def req_shape(c):
    return WF(c.pre, c.args[0], count=False)

def req_empty(c):
    return WF(c.pre, c.args[0], count='empty')

def ens_wf(c):
    return [('well-formed after: ' + l, f) for (l, f) in WF(c.post, c.args[0])]

def same_shape(c):
    """size, functions and bucket array untouched"""
    t = c.args[0]
    return [('table parameters kept', z3.And([c.post.f(T + '.' + q, t) == c.pre.f(T + '.' + q, t)
                                             for q in ('size', 'hash_f', 'is_equal_f', 'entries')]))]

def others_kept(c, t, excl_new):
    """entries of other tables keep key, value, owner"""
    return [('other tables untouched', z3.ForAll([x], z3.Implies(
        z3.And(g(c.pre, 'own', x) != t, g(c.pre, 'own', x) != 0),
        z3.And(g(c.post, 'own', x) == g(c.pre, 'own', x), c.post.f(E + '.key', x) == c.pre.f(E + '.key', x),
               c.post.f(E + '.value', x) == c.pre.f(E + '.value', x), c.post.f(E + '.next', x) == c.pre.f(E + '.next', x),
               g(c.post, 'bkt', x) == g(c.pre, 'bkt', x), g(c.post, 'pos', x) == g(c.pre, 'pos', x),
               g(c.post, 'idx', x) == g(c.pre, 'idx', x), c.post.live(x) == c.pre.live(x))),
        patterns=[g(c.post, 'own', x)]))]

# ---- ghost updates (chosen declaratively at function exit) -----------------
def G0(c, nm):
    return c.pre['ghost:' + nm]

def ghost_insert(mode):
    def upd(c):
        new = [a for (a, ty) in c.st.allocs if ty == E]
        if len(new) != 1:
            return {}
        t = c.args[0]
        e = new[0]
        post = c.post
        b = UMOD(HASH(c.pre.f(T + '.hash_f', t), post.f(E + '.key', e)), c.pre.f(T + '.size', t))
        n = c.pre.f(T + '.elements', t)
        last = z3.Select(G0(c, 'last'), PL(t, b))
        u = {}
        u['ghost:own'] = z3.Store(G0(c, 'own'), e, t)
        u['ghost:bkt'] = z3.Store(G0(c, 'bkt'), e, b)
        if mode == 'append':
            u['ghost:pos'] = z3.Store(G0(c, 'pos'), e, last + 1)
            u['ghost:last'] = z3.Store(G0(c, 'last'), PL(t, b), last + 1)
        else:
            hd = z3.Select(c.pre[ARR], c.pre.f(T + '.entries', t) + b)
            u['ghost:pos'] = z3.Store(G0(c, 'pos'), e, z3.If(hd == 0, last, z3.Select(G0(c, 'pos'), hd) - 1))
            u['ghost:last'] = G0(c, 'last')
        u['ghost:idx'] = z3.Store(G0(c, 'idx'), e, n)
        u['ghost:at'] = z3.Store(G0(c, 'at'), PAIR(t, n), e)
        return u
    return upd

def ghost_remove(c):
    if not c.st.freed:
        return {}
    t = c.args[0]
    u = {}
    e = c.st.freed[0]
    n = c.pre.f(T + '.elements', t)
    l = at(c.pre, t, n - 1)
    k = g(c.pre, 'idx', e)
    u['ghost:own'] = z3.Store(G0(c, 'own'), e, 0)
    u['ghost:idx'] = z3.Store(G0(c, 'idx'), l, k)
    u['ghost:at'] = z3.Store(G0(c, 'at'), PAIR(t, k), l)
    return u

def ghost_clear(c):
    t = c.args[0]
    a = z3.Int('a')
    return {'ghost:own': z3.Lambda([a], z3.If(z3.Select(G0(c, 'own'), a) == t, 0, z3.Select(G0(c, 'own'), a)))}

def ghost_all():
    return {'ghost:' + n: None for n in GH}

# ---- contracts -------------------------------------------------------------
def ens_insert(c):
    t, k, v = c.args
    pre, post = c.pre, c.post
    Q = pre.f(T + '.is_equal_f', t)
    new = z3.Int('e_new')
    n0, n1 = pre.f(T + '.elements', t), post.f(T + '.elements', t)
    out = ens_wf(c) + same_shape(c)
    out += [
        ('returns true', c.ret == 1),
        ('existing entries keep their keys and stay', z3.ForAll([x], z3.Implies(own(pre, x, t), z3.And(
            own(post, x, t), post.f(E + '.key', x) == pre.f(E + '.key', x),
            post.f(E + '.value', x) == z3.If(EQ(Q, pre.f(E + '.key', x), k), v, pre.f(E + '.value', x)))),
            patterns=[g(post, 'own', x)] if False else [g(pre, 'own', x)])),
        ('every entry is old or the inserted pair', z3.ForAll([x], z3.Implies(own(post, x, t), z3.Or(
            own(pre, x, t), z3.And(post.f(E + '.key', x) == k, post.f(E + '.value', x) == v))),
            patterns=[g(post, 'own', x)])),
        ('the key is bound', z3.Not(absent(post, t, k))),
        ('count + 1 exactly when the key was absent', z3.Or(
            z3.And(n1 == n0 + 1, absent(pre, t, k)),
            z3.And(n1 == n0, z3.Not(absent(pre, t, k))))),
    ] + others_kept(c, t, True)
    return out

def ens_lookup(c):
    t, k = c.args
    pre = c.pre
    Q = pre.f(T + '.is_equal_f', t)
    return [
        ('found: the value bound to the key', z3.ForAll([x], z3.Implies(z3.And(own(pre, x, t), EQ(Q, pre.f(E + '.key', x), k)),
                                                            c.ret == pre.f(E + '.value', x)), patterns=[g(pre, 'own', x)])),
        ('absent: NULL', z3.Or(c.ret == 0, z3.Not(absent(pre, t, k)))),
    ]

def ens_remove(c):
    t, k = c.args
    pre, post = c.pre, c.post
    Q = pre.f(T + '.is_equal_f', t)
    n0, n1 = pre.f(T + '.elements', t), post.f(T + '.elements', t)
    return ens_wf(c) + same_shape(c) + [
        ('returns the removed value', z3.ForAll([x], z3.Implies(z3.And(own(pre, x, t), EQ(Q, pre.f(E + '.key', x), k)),
                                                    c.ret == pre.f(E + '.value', x)), patterns=[g(pre, 'own', x)])),
        ('absent: NULL', z3.Or(c.ret == 0, z3.Not(absent(pre, t, k)))),
        ('the key is gone', absent(post, t, k)),
        ('all other pairs stay', z3.ForAll([x], z3.Implies(z3.And(own(pre, x, t), z3.Not(EQ(Q, pre.f(E + '.key', x), k))),
            z3.And(own(post, x, t), post.f(E + '.key', x) == pre.f(E + '.key', x), post.f(E + '.value', x) == pre.f(E + '.value', x))),
            patterns=[g(pre, 'own', x)])),
        ('nothing appears', z3.ForAll([x], z3.Implies(own(post, x, t), own(pre, x, t)), patterns=[g(post, 'own', x)])),
        ('count - 1 exactly when the key was present', z3.Or(
            z3.And(n1 == n0 - 1, z3.Not(absent(pre, t, k))), z3.And(n1 == n0, absent(pre, t, k)))),
    ] + others_kept(c, t, False)

def ens_clear(c):
    t = c.args[0]
    return ens_wf(c) + same_shape(c) + [
        ('no entry left', z3.ForAll([x], z3.Not(own(c.post, x, t)), patterns=[g(c.post, 'own', x)])),
        ('count is 0', c.post.f(T + '.elements', t) == 0),
        ('entries released', z3.ForAll([x], z3.Implies(own(c.pre, x, t), z3.Not(c.post.live(x))), patterns=[g(c.pre, 'own', x)])),
    ] + others_kept(c, t, False)

def only_entries(c):
    t = c.args[0]
    return lambda a: own(c.pre, a, t)

def mod_insert(c):
    t = c.args[0]
    m = {E + '.key': lambda a: z3.Not(c.pre.live(a)), E + '.next': lambda a: z3.Or(own(c.pre, a, t), z3.Not(c.pre.live(a))),
         E + '.value': lambda a: z3.Or(own(c.pre, a, t), z3.Not(c.pre.live(a))),
         ARR: lambda a: z3.And(a >= c.pre.f(T + '.entries', t), a < c.pre.f(T + '.entries', t) + c.pre.f(T + '.size', t)),
         T + '.elements': lambda a: a == t, 'live': lambda a: z3.Not(c.pre.live(a))}
    m.update(ghost_all())
    return m

def mod_remove(c):
    m = mod_insert(c)
    m['live'] = only_entries(c)
    m[E + '.key'] = lambda a: z3.BoolVal(False)
    return m

def ens_delete(c):
    t = c.args[0]
    return [('entries released', z3.ForAll([x], z3.Implies(own(c.pre, x, t), z3.Not(c.post.live(x))), patterns=[g(c.pre, 'own', x)])),
            ('table and buckets released', z3.And(z3.Not(c.post.live(t)), z3.Not(c.post.live(c.pre.f(T + '.entries', t)))))] + others_kept(c, t, False)

def mod_delete(c):
    t = c.args[0]
    m = mod_remove(c)
    m['live'] = lambda a: z3.Or(own(c.pre, a, t), a == t, a == c.pre.f(T + '.entries', t))
    return m

def req_at(c):
    e = c.pre.f(IT + '.current_entry', c.args[0])
    return [('an iterator on an entry', z3.And(iter_ok(c.pre, c.args[0]), e != 0, c.pre.live(e)))]

# map functions: a transformation fn applied to every value exactly once
def mapped(c, old, e):
    nm = c.contract.name
    if nm == 'HTmap':
        return APP1(c.args[1], old.f(E + '.value', e))
    if nm == 'HTmapWithKey':
        return APP2(c.args[1], old.f(E + '.key', e), old.f(E + '.value', e))
    return APP3(c.args[2], c.args[1], old.f(E + '.key', e), old.f(E + '.value', e))

def ens_map(c):
    t = c.args[0]
    wf = [('well-formed after: ' + l, f) for (l, f) in WF(c.post, t, count=False)]
    cnt = [('numbering untouched', z3.And([c.post['ghost:' + n] == c.pre['ghost:' + n] for n in GH])), ('count kept', c.post.f(T + '.elements', t) == c.pre.f(T + '.elements', t))]
    return wf + cnt + same_shape(c) + [
        ('every value mapped exactly once', z3.ForAll([x], z3.Implies(own(c.pre, x, t),
            c.post.f(E + '.value', x) == mapped(c, c.pre, x)), patterns=[g(c.pre, 'own', x)])),
    ]

def mod_map(c):
    return {E + '.value': only_entries(c)}

# iteration order: (bkt, pos) lexicographic
def before(h, a, b):
    return z3.Or(g(h, 'bkt', a) < g(h, 'bkt', b), z3.And(g(h, 'bkt', a) == g(h, 'bkt', b), g(h, 'pos', a) < g(h, 'pos', b)))

def iter_ok(h, it):
    t = h.f(IT + '.table', it); e = h.f(IT + '.current_entry', it)
    return z3.And(it != 0, h.live(it), g(h, 'own', it) == 0, own(h, e, t), t != it,
                  h.f(IT + '.current_element', it) == g(h, 'bkt', e), z3.Select(h['ghost:isiter'], it) == 1,
                  z3.Select(h['ghost:isiter'], t) == 0)

def iter_facts(h, t):
    return [('iterator separate', z3.ForAll([x], z3.Implies(own(h, x, t), z3.Select(h['ghost:isiter'], x) == 0), patterns=[g(h, 'own', x)]))]

def ens_iterate(c):
    t = c.args[0]
    e = c.post.f(IT + '.current_entry', c.ret)
    h = c.pre
    return [
        ('NULL exactly for the empty table', z3.If(c.ret == 0, h.f(T + '.elements', t) == 0, h.f(T + '.elements', t) > 0)),
        ('iterator on the first entry', z3.Implies(c.ret != 0, z3.And(
            iter_ok(c.post, c.ret), c.post.f(IT + '.table', c.ret) == t, own(h, e, t),
            z3.Not(h.live(c.ret)),
            z3.ForAll([x], z3.Implies(own(h, x, t), z3.Or(x == e, before(h, e, x))), patterns=[g(h, 'own', x)])))),
    ]

def req_iter(c):
    it = c.args[0]
    t = c.pre.f(IT + '.table', it)
    return WF(c.pre, t, count=False) + [('iterator valid', iter_ok(c.pre, it)), ('iter not entry', z3.And(it != c.pre.f(T + '.entries', t)))]

def ens_next(c):
    it = c.args[0]
    h = c.pre
    t = h.f(IT + '.table', it)
    e0 = h.f(IT + '.current_entry', it)
    e1 = c.post.f(IT + '.current_entry', it)
    return [
        ('NULL: nothing after the current entry, iterator released', z3.Implies(c.ret == 0, z3.And(
            z3.Not(c.post.live(it)),
            z3.ForAll([x], z3.Implies(own(h, x, t), z3.Not(before(h, e0, x))), patterns=[g(h, 'own', x)])))),
        ('else: the immediately following entry', z3.Implies(c.ret != 0, z3.And(
            c.ret == it, c.post.f(IT + '.table', it) == t, iter_ok(c.post, it), before(h, e0, e1),
            z3.ForAll([x], z3.Implies(z3.And(own(h, x, t), before(h, e0, x)), z3.Or(x == e1, before(h, e1, x))), patterns=[g(h, 'own', x)])))),
    ]

def ghost_iter(c):
    new = [a for (a, ty) in c.st.allocs]
    if not new:
        return {}
    return {'ghost:isiter': z3.Store(c.pre['ghost:isiter'], new[0], 1)}

def mod_iter(c):
    fr = lambda a: z3.Not(c.pre.live(a))
    return {IT + '.table': fr, IT + '.current_element': fr, IT + '.current_entry': fr, 'live': fr, 'ghost:isiter': None}

def mod_next(c):
    it = c.args[0]
    me = lambda a: a == it
    return {IT + '.current_element': me, IT + '.current_entry': me, 'live': me}

def ens_new(c):
    size, hf, ef = c.args
    t = c.ret
    h = c.post
    return [('well-formed: ' + l, f) for (l, f) in WF(h, t)] + [
        ('parameters', z3.And(h.f(T + '.size', t) == size, h.f(T + '.hash_f', t) == hf, h.f(T + '.is_equal_f', t) == ef)),
        ('empty', z3.And(h.f(T + '.elements', t) == 0, z3.ForAll([x], z3.Not(own(h, x, t)), patterns=[g(h, 'own', x)]))),
        ('fresh', z3.And(z3.Not(c.pre.live(t)), z3.Not(c.pre.live(h.f(T + '.entries', t))))),
    ]

def mod_new(c):
    fr = lambda a: z3.Not(c.pre.live(a))
    m = {T + '.' + q: fr for q in ('size', 'hash_f', 'is_equal_f', 'entries', 'elements')}
    m['live'] = fr
    m[ARR] = lambda a: z3.Select(c.pre['ghost:region'], a) == 0
    return m

# ---- memory builtins -------------------------------------------------------
def alloc_type(eng, n, hint, st):
    if hint and hint[0] == 'ptr' and hint[1][0] in ('struct', 'union'):
        return hint[1][1]
    return None

def b_malloc(eng, st, args, rt, hint, n):
    s = st.copy()
    p = eng.fresh('alloc')
    ty = alloc_type(eng, n, hint, st)
    eng.assume(s, z3.And(p > 0, z3.Not(z3.Select(eng.harr(s, 'live'), p))))
    eng.assume(s, z3.Select(eng.harr(s, 'ghost:own'), p) == 0)     # WF: owned entries are live
    for (q, _) in s.allocs:
        eng.assume(s, p != q)
    s.heap['live'] = z3.Store(eng.harr(s, 'live'), p, True)
    s.allocs.append((p, ty))
    return [(s, p)]

def b_calloc(eng, st, args, rt, hint, n):
    """zeroed region of `count` elements, disjoint from every existing region"""
    s = b_malloc(eng, st, args, rt, hint, n)
    out = []
    tu = eng.tu_of()
    key = ARR
    for (s2, p) in s:
        # one argument is the element size
        cnt = None
        for a in args:
            pass
        cnt = z3.simplify(args[0] * args[1] / 8)
        a = z3.Int('a!c')
        old = eng.harr(s2, key)
        new = eng.fresh('calloc_' + key, eng.sort_of_key(key))
        eng.assume(s2, z3.ForAll([a], z3.Select(new, a) == z3.If(z3.And(p <= a, a < p + cnt), 0, z3.Select(old, a)),
                                 patterns=[z3.Select(new, a)]))
        eng.assume(s2, z3.ForAll([a], z3.Implies(z3.And(p <= a, a < p + cnt), z3.Select(eng.harr(s2, 'ghost:region'), a) == 0),
                                 patterns=[z3.Select(eng.harr(s2, 'ghost:region'), a)]))
        s2.heap[key] = new
        out.append((s2, p))
    return out

def b_free(eng, st, args, rt, hint, n):
    s = st.copy()
    p = args[0]
    eng.obligation(s, z3.Or(p == 0, z3.Select(eng.harr(s, 'live'), p)), 'released object is allocated', 'safety')
    s.heap['live'] = z3.Store(eng.harr(s, 'live'), p, z3.And(z3.BoolVal(False)))
    s.freed.append(p)
    return [(s, IntV(0))]

FOLD = 'ghost:folded'

def indirect(eng, st, ft, f, args, rt, callee):
    top = eng.frames[0]['ctx']
    if top.contract.name == 'HTfold' and len(args) == 2:
        # which entry's value is handed out
        v = z3.simplify(args[1])
        s = st.copy()
        e = v.arg(1) if z3.is_select(v) else IntV(0)
        eng.obligation(s, z3.And(f == top.args[1], args[0] == top.args[2], own(HV(eng, s), e, top.args[0]), v == HV(eng, s).f(E + '.value', e)),
                       'the fold function gets the accumulator and the value of an entry', 'precondition')
        s.heap[FOLD] = z3.Store(eng.harr(s, FOLD), e, z3.Select(eng.harr(s, FOLD), e) + 1)
        return [(s, eng.fresh('folded'))]
    tu = eng.tu_of()
    sig = ft[1][1] if ft[0] == 'ptr' and ft[1][0] == 'func' else str(ft)
    if len(args) == 1 and sig.startswith(('size_t', 'unsignedlong')):
        return [(st, HASH(f, args[0]))]
    if len(args) == 2 and sig.startswith(('bool', '_Bool')):
        return [(st, b2i(EQ(f, args[0], args[1])))]
    if len(args) == 1:
        return [(st, APP1(f, args[0]))]
    if len(args) == 2:
        return [(st, APP2(f, args[0], args[1]))]
    return [(st, APP3(f, args[0], args[1], args[2]))]

# ---- loop invariant templates ----------------------------------------------
def templates(L):
    eng = L.eng
    c = L.fctx
    name = c.contract.name
    out = []
    if name in ('HTiterateNext', 'HTiterValue'):
        t = c.pre.f(IT + '.table', c.args[0])
    elif name in ('HTnew',):
        return []
    else:
        t = c.args[0]
    pre = c.pre
    Q = pre.f(T + '.is_equal_f', t)
    ptrs = [(k, nm) for (k, nm, ty) in L.vars if ty == ('ptr', ('struct', E))]
    pptrs = [(k, nm) for (k, nm, ty) in L.vars if ty == ('ptr', ('ptr', ('struct', E)))]
    ints = [(k, nm) for (k, nm, ty) in L.vars if ty[0] == 'int' and ty[1] >= 32]
    modp = [(k, nm) for (k, nm) in ptrs if k in L.modified]
    argk = c.args[1] if len(c.args) > 1 else None
    O = lambda h, e: own(h, e, t)
    ent = pre.f(T + '.entries', t)
    sz = pre.f(T + '.size', t)
    for (k, nm) in ptrs:
        out.append((nm + ' in table or NULL', lambda S, k=k: z3.Or(S.v(k) == 0, O(pre, S.v(k)))))
        out.append((nm + ' in table', lambda S, k=k: z3.And(S.v(k) != 0, O(pre, S.v(k)))))
        for (ik, inm) in ints:
            out.append(('%s in bucket %s' % (nm, inm), lambda S, k=k, ik=ik: z3.Or(S.v(k) == 0, g(pre, 'bkt', S.v(k)) == S.v(ik))))
        if argk is not None and name in ('HTinsert', 'Insert', 'HTlookup', 'HTremove'):
            hb = lambda: UMOD(HASH(pre.f(T + '.hash_f', t), argk), sz)
            out.append(('%s in bucket of key' % nm, lambda S, k=k: z3.Or(S.v(k) == 0, g(pre, 'bkt', S.v(k)) == hb())))
            # keys before nm do not match
            def nomatch(S, k=k):
                e = S.v(k)
                return z3.ForAll([x], z3.Implies(z3.And(O(pre, x), g(pre, 'bkt', x) == hb(),
                                                        z3.Or(e == 0, g(pre, 'pos', x) < g(pre, 'pos', e))),
                                                 z3.Not(EQ(Q, pre.f(E + '.key', x), argk))), patterns=[g(pre, 'own', x)])
            out.append(('no match before ' + nm, nomatch))
            def nomatch_le(S, k=k):
                e = S.v(k)
                return z3.ForAll([x], z3.Implies(z3.And(O(pre, x), g(pre, 'bkt', x) == hb(), e != 0,
                                                        g(pre, 'pos', x) <= g(pre, 'pos', e)),
                                                 z3.Not(EQ(Q, pre.f(E + '.key', x), argk))), patterns=[g(pre, 'own', x)])
            out.append(('no match up to ' + nm, nomatch_le))
    for (k, nm) in ptrs:
        for (k2, nm2) in ptrs:
            if k != k2:
                out.append(('%s->next == %s' % (nm, nm2), lambda S, k=k, k2=k2: z3.And(S.v(k) != 0, S.h.f(E + '.next', S.v(k)) == S.v(k2))))
    for (k, nm) in pptrs:
        # a cursor over links: points at the bucket slot or at a next field
        def link(S, k=k):
            p = S.v(k)
            fas = [v for kk, v in eng.fa.items() if v[0] == E + '.next']
            hb = UMOD(HASH(pre.f(T + '.hash_f', t), argk), sz) if argk is not None else IntV(0)
            alt = [p == ent + hb]
            if fas:
                alt = [z3.And(eng.tagf(p) == 0, p == ent + hb)]
                alt.append(z3.And(eng.tagf(p) == fas[0][1], O(pre, eng.basef(p)), g(pre, 'bkt', eng.basef(p)) == hb,
                                  z3.ForAll([x], z3.Implies(z3.And(O(pre, x), g(pre, 'bkt', x) == hb, g(pre, 'pos', x) <= g(pre, 'pos', eng.basef(p))),
                                            z3.Not(EQ(Q, pre.f(E + '.key', x), argk))) if argk is not None else z3.BoolVal(True), patterns=[g(pre, 'own', x)])))
            return z3.Or(alt)
        out.append((nm + ' is a link', link))
    # index bounds and bucket scans
    for (k, nm) in ints:
        out.append((nm + ' <= size', lambda S, k=k: z3.And(S.v(k) >= 0, S.v(k) <= sz)))
        if name in ('HTiterate',):
            out.append(('empty below ' + nm, lambda S, k=k: z3.ForAll([x], z3.Implies(O(pre, x), g(pre, 'bkt', x) >= S.v(k)), patterns=[g(pre, 'own', x)])))
        if name in ('HTiterateNext',):
            e0 = pre.f(IT + '.current_entry', c.args[0])
            out.append(('empty between current and ' + nm, lambda S, k=k: z3.ForAll([x], z3.Implies(
                z3.And(O(pre, x), g(pre, 'bkt', x) > g(pre, 'bkt', e0)), g(pre, 'bkt', x) >= S.v(k)), patterns=[g(pre, 'own', x)])))
            out.append((nm + ' beyond current bucket', lambda S, k=k: S.v(k) > g(pre, 'bkt', e0)))
    if name in ('HTmap', 'HTmapWithKey', 'HTmapWithDataAndKey'):
        for (k, nm) in ints:
            def done(S, k=k):
                return z3.ForAll([x], z3.Implies(O(pre, x), S.h.f(E + '.value', x) == z3.If(
                    g(pre, 'bkt', x) < S.v(k), mapped(c, pre, x), pre.f(E + '.value', x))), patterns=[S.h.f(E + '.value', x), g(pre, 'own', x)])
            out.append(('buckets below %s mapped' % nm, done))
            for (k2, nm2) in ptrs:
                def done2(S, k=k, k2=k2):
                    e = S.v(k2)
                    return z3.ForAll([x], z3.Implies(O(pre, x), S.h.f(E + '.value', x) == z3.If(
                        z3.Or(g(pre, 'bkt', x) < S.v(k), z3.And(g(pre, 'bkt', x) == S.v(k), z3.Or(e == 0, g(pre, 'pos', x) < g(pre, 'pos', e)))),
                        mapped(c, pre, x), pre.f(E + '.value', x))), patterns=[S.h.f(E + '.value', x), g(pre, 'own', x)])
                out.append(('values before %s in bucket %s mapped' % (nm2, nm), done2))
        out.append(('foreign values kept', lambda S: z3.ForAll([x], z3.Implies(z3.Not(O(pre, x)), S.h.f(E + '.value', x) == pre.f(E + '.value', x)),
                                                               patterns=[S.h.f(E + '.value', x)])))
    if name == 'HTfold':
        F0 = lambda e: z3.Select(pre[FOLD], e)
        for (k, nm) in ints:
            out.append(('buckets below %s folded' % nm, lambda S, k=k: z3.ForAll([x], z3.Select(S.h[FOLD], x) == F0(x) + z3.If(
                z3.And(O(pre, x), g(pre, 'bkt', x) < S.v(k)), 1, 0), patterns=[z3.Select(S.h[FOLD], x)])))
            for (k2, nm2) in ptrs:
                out.append(('values before %s in bucket %s folded' % (nm2, nm), lambda S, k=k, k2=k2: z3.ForAll([x], z3.Select(S.h[FOLD], x) == F0(x) + z3.If(
                    z3.And(O(pre, x), z3.Or(g(pre, 'bkt', x) < S.v(k), z3.And(g(pre, 'bkt', x) == S.v(k), z3.Or(S.v(k2) == 0, g(pre, 'pos', x) < g(pre, 'pos', S.v(k2)))))), 1, 0),
                    patterns=[z3.Select(S.h[FOLD], x)])))
    if name in ('HTclear', 'HTdelete'):
        for (k, nm) in ints:
            out.append(('slots below %s cleared' % nm, lambda S, k=k: z3.ForAll([x], z3.Select(S.h[ARR], x) == z3.If(
                z3.And(ent <= x, x < ent + S.v(k)), 0, z3.Select(pre[ARR], x)), patterns=[z3.Select(S.h[ARR], x)])))
            out.append(('entries below %s released' % nm, lambda S, k=k: z3.ForAll([x], S.h.live(x) == z3.And(pre.live(x), z3.Not(
                z3.And(O(pre, x), g(pre, 'bkt', x) < S.v(k)))), patterns=[S.h.live(x)])))
            for (k2, nm2) in ptrs:
                def rel(S, k=k, k2=k2):
                    e = S.v(k2)
                    return z3.ForAll([x], S.h.live(x) == z3.And(pre.live(x), z3.Not(z3.And(O(pre, x), z3.Or(
                        g(pre, 'bkt', x) < S.v(k), z3.And(g(pre, 'bkt', x) == S.v(k), z3.Or(e == 0, g(pre, 'pos', x) < g(pre, 'pos', e))))))),
                        patterns=[S.h.live(x)])
                out.append(('entries before %s in %s released' % (nm2, nm), rel))
                out.append(('slots below %s cleared, this one maybe' % nm, lambda S, k=k: z3.ForAll([x], z3.Implies(x != ent + S.v(k), z3.Select(S.h[ARR], x) == z3.If(
                    z3.And(ent <= x, x < ent + S.v(k)), 0, z3.Select(pre[ARR], x))), patterns=[z3.Select(S.h[ARR], x)])))
        for q in ('elements',):
            out.append(('count is 0', lambda S: S.h.f(T + '.elements', t) == 0))
            out.append(('count kept', lambda S: S.h.f(T + '.elements', t) == pre.f(T + '.elements', t)))
    # general frame candidates for loop-modified fields
    for key in sorted(L.mkeys):
        out.append(('frame ' + key, lambda S, key=key: z3.BoolVal(True) if S.h[key].eq(L.entry[key]) else S.h[key] == L.entry[key]))
    return out

def measures(L):
    c = L.fctx
    pre = c.pre
    name = c.contract.name
    t = pre.f(IT + '.table', c.args[0]) if name == 'HTiterateNext' else c.args[0]
    out = []
    ptrs = [(k, nm) for (k, nm, ty) in L.vars if ty == ('ptr', ('struct', E))]
    for (k, nm) in ptrs:
        out.append((nm + ' advances', lambda S, k=k: z3.If(S.v(k) == 0, 0, 1 + z3.If(
            own(pre, S.v(k), t), z3.Select(pre['ghost:last'], PL(t, g(pre, 'bkt', S.v(k)))) - g(pre, 'pos', S.v(k)), 0))))
    for (k, nm, ty) in L.vars:
        if ty[0] == 'int':
            out.append(('size - ' + nm, lambda S, k=k: pre.f(T + '.size', t) - S.v(k)))
    return out

def contracts():
    C = {}
    def add(c):
        c.templates = templates
        c.measures = measures
        C[c.name] = c
    add(Contract('HTinsert', req_wf, ens_insert, mod_insert, [ghost_insert('append'), ghost_insert('prepend')]))
    add(Contract('HTlookup', req_shape, ens_lookup, lambda c: {}))
    add(Contract('HTremove', req_wf, ens_remove, mod_remove, [ghost_remove]))
    add(Contract('HTclear', req_wf, ens_clear, mod_remove, [ghost_clear]))
    for nm in ('HTmap', 'HTmapWithKey', 'HTmapWithDataAndKey'):
        add(Contract(nm, req_shape, ens_map, mod_map))
    add(Contract('HTfold', req_shape, lambda c: [
        ('the value of every entry is folded exactly once, nothing else', z3.ForAll([x], z3.Select(c.post[FOLD], x) == z3.Select(c.pre[FOLD], x) + z3.If(own(c.pre, x, c.args[0]), 1, 0),
                                                                                      patterns=[z3.Select(c.post[FOLD], x)]))], lambda c: {FOLD: None}))
    named(C, add)
    add(Contract('HTdelete', req_wf, ens_delete, mod_delete))
    add(Contract('HTelementCount', req_shape, lambda c: [('the number of entries', c.ret == c.pre.f(T + '.elements', c.args[0]))], lambda c: {}))
    add(Contract('HTiterValue', req_at, lambda c: [('the value of the current entry', c.ret == c.pre.f(E + '.value', c.pre.f(IT + '.current_entry', c.args[0])))], lambda c: {}))
    add(Contract('HTiterKey', req_at, lambda c: [('the key of the current entry', c.ret == c.pre.f(E + '.key', c.pre.f(IT + '.current_entry', c.args[0])))], lambda c: {}))
    add(Contract('HTiterSetValue', req_at, lambda c: [('the value of the current entry is replaced', c.post.f(E + '.value', c.pre.f(IT + '.current_entry', c.args[0])) == c.args[1])],
                 lambda c: {E + '.value': lambda a: a == c.pre.f(IT + '.current_entry', c.args[0])}))
    add(Contract('HTiterateCancel', req_at, lambda c: [('the iterator is released', z3.Not(c.post.live(c.args[0])))], lambda c: {'live': lambda a: a == c.args[0]}))
    add(Contract('HTiterate', lambda c: req_empty(c) + [('nothing else is an iterator', z3.And(z3.Select(c.pre['ghost:isiter'], c.args[0]) == 0))], ens_iterate, lambda c: mod_iter(c), [ghost_iter]))
    add(Contract('HTiterateNext', req_iter, ens_next, mod_next))
    add(Contract('HTnew', lambda c: [('size', z3.And(c.args[0] > 0, c.args[0] < 2**60)), ('client functions compatible', COMPAT(c.args[1], c.args[2])),
                                     ('owned entries are allocated', z3.ForAll([x], z3.Implies(g(c.pre, 'own', x) != 0, z3.And(c.pre.live(x), c.pre.live(g(c.pre, 'own', x)))), patterns=[g(c.pre, 'own', x)]))],
                 ens_new, mod_new))
    return C


# ---- the three named tables: hash and equality belong together ---------------
import os
from ccv import runner
FN = lambda nm: z3.Int('&fn:' + nm)
NAMED = [('HTnew_String', 'StringHash', 'STReq'), ('HTnew_Ptr', 'PtrHash', 'PtrEqual'), ('HTnew_Int', 'IntHash', 'IntEqual')]
# pointers, numbers: proved by the lemmas below (unit "hash functions"); strings: trusted, tested in harness/c01.c
AXIOMS += [COMPAT(FN(a), FN(b)) for _, a, b in NAMED]

def named(C, add):
    for nm, hf, ef in NAMED:
        add(Contract(nm, lambda c: [('size', z3.And(c.args[0] > 0, c.args[0] < 2**60)),
                                    ('owned entries are allocated', z3.ForAll([x], z3.Implies(g(c.pre, 'own', x) != 0, z3.And(c.pre.live(x), c.pre.live(g(c.pre, 'own', x)))), patterns=[g(c.pre, 'own', x)]))],
                     lambda c, hf=hf, ef=ef: [
                         ('an empty table of this size', z3.And(c.post.f(T + '.size', c.ret) == c.args[0], c.post.f(T + '.elements', c.ret) == 0)),
                         ('with the hash function that belongs to its equality', z3.And(COMPAT(c.post.f(T + '.hash_f', c.ret), c.post.f(T + '.is_equal_f', c.ret)), c.post.f(T + '.is_equal_f', c.ret) == FN(ef)))],
                     mod_new))

LEMMAS = '''
#include "%s/palm/src/hash_table.c"
int vt_ptr(void *a, void *b) { return !PtrEqual(a, b) || PtrHash(a) == PtrHash(b); }
int vt_int(int *a, int *b) { return !IntEqual(a, b) || IntHash(a) == IntHash(b); }
'''

def lemma_contracts():
    return {
        'vt_ptr': Contract('vt_ptr', None, lambda c: [('equal pointers have equal hashes', c.ret != 0)], lambda c: {}),
        'vt_int': Contract('vt_int', lambda c: [('two numbers', z3.And(c.args[0] > 0, c.args[1] > 0))], lambda c: [('equal numbers have equal hashes', c.ret != 0)], lambda c: {}),
    }

def lemma_unit(scratch):
    f = os.path.join(scratch, 'vt_hash.c')
    open(f, 'w').write(LEMMAS % runner.REPO)
    return runner.Unit('hash functions', [f], lemma_contracts, functions=['vt_ptr', 'vt_int'], flags=['-I' + runner.REPO + '/palm/include'],
                       engine=dict(opts={'live': False}))
