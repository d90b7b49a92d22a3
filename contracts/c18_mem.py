"""C18: allocation wrappers."""
import z3
from ccv.exec import *
from contracts.bytemem import *
import contracts.bytemem as bm

k_ = z3.Int('k!q')

def b_malloc_may_fail(eng, st, args, rt, hint, n):
    """C library malloc: NULL, or a fresh block of the requested size"""
    s1, s2 = st.copy(), st.copy()
    pn = do_alloc(eng, s1, args[0], 'malloc')
    return [(s1, pn), (s2, IntV(0))]

def b_calloc_may_fail(eng, st, args, rt, hint, n):
    s1, s2 = st.copy(), st.copy()
    size = args[0] * args[1]
    pn = do_alloc(eng, s1, size, 'calloc')
    write(eng, s1, pn, size, lambda k: IntV(0))
    return [(s1, pn), (s2, IntV(0))]

def b_realloc_may_fail(eng, st, args, rt, hint, n):
    """NULL (block kept) or a block with the common prefix; the old block is gone unless kept in place"""
    a, size = args
    h = HV(eng, st)
    eng.obligation(st, z3.Or(a == 0, z3.And(OBJ(a) == a, h.live(a))), 'realloc of a live block', 'safety')
    eng.obligation(st, size > 0, 'realloc with a non-zero size', 'safety')
    s0, s1 = st.copy(), st.copy()
    pn = do_alloc(eng, s1, size, 'realloc')      # a moved block; one resized in place is a special case up to its address
    m = HV(eng, s1)[M]
    old = BSZ(a)
    write(eng, s1, pn, z3.If(a == 0, 0, z3.If(old < size, old, size)), lambda k: sel(m, a + (k - pn)))
    s1.heap['live'] = z3.Store(eng.harr(s1, 'live'), a, z3.If(a == 0, z3.Select(eng.harr(s1, 'live'), a), False))
    return [(s1, pn), (s0, IntV(0))]

def fresh_block(c, r, size):
    h = c.post
    return z3.And(r > 0, z3.Not(c.pre.live(r)), c.post.live(r), BSZ(r) >= size,
                  z3.ForAll([i], z3.Implies(z3.And(r <= i, i < r + size), OBJ(i) == r), patterns=[OBJ(i)]))

def block_or_null(c, a):
    return z3.Or(a == 0, z3.And(OBJ(a) == a, c.pre.live(a), BSZ(a) > 0))

def live_fresh(c):
    return {M: lambda a: z3.BoolVal(False), 'live': lambda a: z3.Not(c.pre.live(a))}

def ens_malloc(c):
    size = c.args[0]
    return [('NULL only for size 0', (c.ret == 0) == (size == 0)),
            ('fresh block of the requested size', z3.Implies(size > 0, fresh_block(c, c.ret, size)))]

def ens_realloc(c):
    a, size = c.args
    n = z3.If(BSZ(a) < size, BSZ(a), size)
    mo, mn = c.pre[M], c.post[M]
    return [('NULL only for size 0', (c.ret == 0) == (size == 0)),
            ('block of the requested size', z3.Implies(size > 0, z3.And(c.post.live(c.ret), BSZ(c.ret) >= size, OBJ(c.ret) == c.ret))),
            ('no block other than the old one is handed out', z3.Implies(size > 0, z3.Or(c.ret == a, z3.Not(c.pre.live(c.ret))))),
            ('the old block is released', z3.Implies(z3.And(a != 0, c.ret != a), z3.Not(c.post.live(a)))),
            ('the common prefix is kept', z3.Implies(z3.And(a != 0, size > 0), z3.ForAll([k_], z3.Implies(z3.And(c.ret <= k_, k_ < c.ret + n), sel(mn, k_) == sel(mo, a + (k_ - c.ret))), patterns=[sel(mn, k_)])))]

def ens_free(c):
    a = c.args[0]
    return [('yields NULL', c.ret == 0), ('the block is released', z3.Implies(a != 0, z3.Not(c.post.live(a))))]

def ens_copy(c):
    size, a = c.args
    return [('NULL only for size 0', (c.ret == 0) == (size == 0)),
            ('fresh block of the requested size', z3.Implies(size > 0, fresh_block(c, c.ret, size))),
            ('same bytes', copied(c.post[M], c.ret, c.pre[M], a, size))]

def contracts():
    C = {}
    def add(name, req, ens, mods, **kw):
        C[name] = Contract(name, req, ens, mods, **kw)
    sane = lambda x: lambda c: [('sane size', c.args[x] < 2**62)]
    oom = Contract('CTIabortOutOfMemory', None, None, lambda c: {}, noreturn=True, trusted=True)
    C['CTIabortOutOfMemory'] = oom
    # the out-of-memory stop may happen, but only on a non-zero request
    add('MEMmalloc', sane(0), ens_malloc, live_fresh, allow_abort=lambda c: c.args[0] > 0)
    add('MEMrealloc', lambda c: [('sane size', c.args[1] < 2**62), ('live block or NULL', block_or_null(c, c.args[0]))], ens_realloc,
        lambda c: {M: lambda a: z3.BoolVal(False), 'live': lambda a: z3.Or(z3.Not(c.pre.live(a)), a == c.args[0])}, allow_abort=lambda c: c.args[1] > 0)
    add('MEMfree', lambda c: [('live block or NULL', block_or_null(c, c.args[0]))], ens_free,
        lambda c: {'live': lambda a: z3.And(a == c.args[0], a != 0)}, allow_abort=False)
    def req_copy(c):
        return [('sane size', c.args[0] < 2**62),
                ('readable source', z3.ForAll([i], z3.Implies(z3.And(c.args[1] <= i, i < c.args[1] + c.args[0]), valid(c.pre, i)), patterns=[OBJ(i)]))]
    add('MEMcopy', req_copy, ens_copy, live_fresh)
    return C

BUILTINS = {'malloc': b_malloc_may_fail, 'calloc': b_calloc_may_fail, 'realloc': b_realloc_may_fail, 'free': b_free, 'memcpy': b_memcpy, 'memmove': b_memcpy}
