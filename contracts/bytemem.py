"""Byte memory and strings.

OBJ(a): the block (base address) that address a lies in, 0 if none; BSZ(b): the size
of block b.  Blocks are never re-used (freed addresses are not handed out again: the
usual idealisation), so both are functions.  'live'[b]: block b is allocated.
LEN(m, p): distance from p to the first NUL at or after p in byte memory m, -1 if there
is none (the axioms below are consequences of this definition).
IDX is the identity; it only guides quantifier instantiation."""
import z3
from ccv.exec import *

M = 'mem:i8'
OBJ = z3.Function('obj', I, I)
BSZ = z3.Function('bsz', I, I)
LEN = z3.Function('len', AII, I, I)
TOLOW = z3.Function('tolower', I, I)
TOUP = z3.Function('toupper', I, I)
m_, n_ = z3.Const('m', AII), z3.Const('n2', AII)
p, q, i, j, n = z3.Ints('p q i j n')

IDX = z3.Function('idx', I, I)
AXIOMS = [
    z3.ForAll([p], IDX(p) == p, patterns=[IDX(p)]),
    z3.ForAll([m_, p], z3.And(LEN(m_, p) >= -1, (z3.Select(m_, p) == 0) == (LEN(m_, p) == 0),
                              z3.Implies(LEN(m_, p) >= 0, z3.Select(m_, p + LEN(m_, p)) == 0)), patterns=[LEN(m_, p)]),
    z3.ForAll([m_, p, i], z3.Implies(z3.And(LEN(m_, p) >= 0, p <= i, i < p + LEN(m_, p)), z3.Select(m_, i) != 0),
              patterns=[z3.MultiPattern(LEN(m_, p), z3.Select(m_, i))]),
    z3.ForAll([m_, p, i], z3.Implies(z3.And(p <= i, z3.Select(m_, i) == 0), z3.And(LEN(m_, p) >= 0, LEN(m_, p) <= i - p)),
              patterns=[z3.MultiPattern(LEN(m_, p), z3.Select(m_, i))]),
    # the rest of a string is a string
    z3.ForAll([m_, p, q], z3.Implies(z3.And(LEN(m_, p) >= 0, p <= q, q <= p + LEN(m_, p)), LEN(m_, q) == p + LEN(m_, p) - q),
              patterns=[z3.MultiPattern(LEN(m_, p), LEN(m_, q))]),
    z3.ForAll([p], z3.Implies(OBJ(p) != 0, z3.And(OBJ(p) > 0, OBJ(p) <= p, p < OBJ(p) + BSZ(OBJ(p)))), patterns=[OBJ(p)]),
    # blocks are contiguous: everything between two addresses of a block is in it
    z3.ForAll([p, i], z3.Implies(z3.And(OBJ(p) != 0, OBJ(p) <= i, i < OBJ(p) + BSZ(OBJ(p))), OBJ(i) == OBJ(p)), patterns=[z3.MultiPattern(OBJ(p), OBJ(i))]),
    # tolower/toupper: only letters change, NUL is kept, nothing becomes NUL
    z3.ForAll([i], z3.And(z3.Implies(i == 0, TOLOW(i) == 0), z3.Implies(i != 0, TOLOW(i) != 0),
                          z3.Implies(z3.And(i >= -128, i < 128), z3.And(TOLOW(i) >= -128, TOLOW(i) < 128))), patterns=[TOLOW(i)]),
    z3.ForAll([i], z3.And(z3.Implies(i == 0, TOUP(i) == 0), z3.Implies(i != 0, TOUP(i) != 0),
                          z3.Implies(z3.And(i >= -128, i < 128), z3.And(TOUP(i) >= -128, TOUP(i) < 128))), patterns=[TOUP(i)]),
]

def sel(m, a):
    return z3.Select(m, a)

def valid(h, a):
    """address a may be accessed in heap view h"""
    return z3.And(OBJ(a) != 0, h.live(OBJ(a)))

def block(h, b, size):
    """b is a block of `size` bytes (as a fact about addresses)"""
    return z3.And(b > 0, h.live(b), BSZ(b) == size, z3.ForAll([i], (OBJ(i) == b) == z3.And(b <= i, i < b + size), patterns=[OBJ(i)]))

def is_str(h, s):
    """s is a NUL-terminated string inside one live block"""
    m = h[M]
    L = LEN(m, s)
    return z3.And(s > 0, L >= 0, L < 2**31 - 16,
                  OBJ(s) != 0, h.live(OBJ(s)), OBJ(s + L) == OBJ(s))

def str_or_null(h, s):
    return z3.Or(s == 0, is_str(h, s))

def fresh_str(c, s, L):
    """s: freshly allocated block of at least L+1 bytes holding a string of length L"""
    return z3.And(s > 0, z3.Not(c.pre.live(s)), c.post.live(s), OBJ(s) == s, BSZ(s) >= L + 1, LEN(c.post[M], s) == L)

def copied(mn, d, mo, a, n):
    """mn[d..d+n) holds mo[a..a+n)  (two different memories)"""
    k = z3.Int('k!cp')
    return z3.And(z3.ForAll([k], z3.Implies(z3.And(d <= k, k < d + n), sel(mn, k) == sel(mo, a + (k - d))), patterns=[sel(mn, k)]))

def same(m, a, b, n, f=lambda t: t):
    """m[a..a+n) == m[b..b+n) in one memory, up to f"""
    k = z3.Int('k!sm')
    return z3.And(z3.ForAll([k], z3.Implies(z3.And(IDX(k) == k, a <= k, k < a + n), f(sel(m, k)) == f(sel(m, b + (k - a)))), patterns=[IDX(k)]),
                  z3.ForAll([k], z3.Implies(z3.And(IDX(k) == k, b <= k, k < b + n), f(sel(m, k)) == f(sel(m, a + (k - b)))), patterns=[IDX(k)]))

def obj_fact(p_, size):
    return z3.ForAll([i], (OBJ(i) == p_) == z3.And(p_ <= i, i < p_ + size), patterns=[OBJ(i)])

# ---- allocator -------------------------------------------------------------
def do_alloc(eng, s, size, name='alloc'):
    pn = eng.fresh(name)
    eng.assume(s, z3.And(pn > 0, z3.Not(z3.Select(eng.harr(s, 'live'), pn)), BSZ(pn) == size, OBJ(pn) == z3.If(size > 0, pn, OBJ(pn))))
    eng.assume(s, obj_fact(pn, size))
    for (qq, _) in s.allocs:
        eng.assume(s, pn != qq)
    s.heap['live'] = z3.Store(eng.harr(s, 'live'), pn, True)
    s.allocs.append((pn, None))
    return pn

def b_malloc_total(eng, st, args, rt, hint, n):
    """MEMmalloc's contract as seen by callers (proved in C18): fresh block, NULL for 0"""
    s = st.copy()
    size = args[0]
    eng.obligation(s, z3.And(size > 0, size < 2**62), 'allocation size positive and sane', 'precondition')
    pn = do_alloc(eng, s, size)
    return [(s, pn)]

def b_free(eng, st, args, rt, hint, n):
    s = st.copy()
    a = args[0]
    eng.obligation(s, z3.Or(a == 0, z3.And(OBJ(a) == a, z3.Select(eng.harr(s, 'live'), a))), 'released address is a live block', 'safety')
    s.heap['live'] = z3.Store(eng.harr(s, 'live'), a, z3.If(a == 0, z3.Select(eng.harr(s, 'live'), a), False))
    s.freed.append(a)
    return [(s, IntV(0))]

# ---- libc string functions (assumed contracts) ------------------------------
def oblig_str(eng, s, a, what):
    h = HV(eng, s)
    eng.obligation(s, is_str(h, a), '%s: argument is a string' % what, 'precondition')

def oblig_str_pre(eng, s, a, what):
    return oblig_str(eng, s, a, what)

def oblig_room(eng, s, d, n, what):
    h = HV(eng, s)
    a = eng.fresh('room')
    eng.obligation(s, z3.Implies(z3.And(d <= a, a < d + n), valid(h, a)), '%s: destination has room' % what, 'precondition')

def write(eng, s, d, n, src):
    """bytes d..d+n) become src(k); everything else is kept"""
    old = eng.harr(s, M)
    if not z3.is_const(old):
        o2 = eng.fresh('m_' + M, AII); eng.assume(s, o2 == old); s.heap[M] = o2; old = o2
    new = eng.fresh('w_' + M, AII)
    k = z3.Int('k!w')
    eng.assume(s, z3.ForAll([k], sel(new, k) == z3.If(z3.And(d <= k, k < d + n), src(k), sel(old, k)), patterns=[sel(new, k)]))
    eng.assume(s, z3.ForAll([k], sel(new, k) == z3.If(z3.And(d <= k, k < d + n), src(k), sel(old, k)), patterns=[sel(old, k)]))
    s.heap[M] = new

def b_strlen(eng, st, args, rt, hint, n):
    s = st.copy()
    oblig_str(eng, s, args[0], 'strlen')
    h = HV(eng, s)
    return [(s, LEN(h[M], args[0]))]

def b_strcpy(eng, st, args, rt, hint, n):
    s = st.copy()
    d, a = args
    oblig_str(eng, s, a, 'strcpy')
    m = HV(eng, s)[M]
    L = LEN(m, a)
    oblig_room(eng, s, d, L + 1, 'strcpy')
    eng.obligation(s, z3.Or(OBJ(d) != OBJ(a)), 'strcpy: no overlap', 'precondition')
    write(eng, s, d, L + 1, lambda k: sel(m, a + (k - d)))
    eng.assume(s, LEN(HV(eng, s)[M], d) == L)
    return [(s, d)]

def b_strncpy(eng, st, args, rt, hint, n):
    s = st.copy()
    d, a, c = args
    oblig_str(eng, s, a, 'strncpy')
    m = HV(eng, s)[M]
    L = LEN(m, a)
    oblig_room(eng, s, d, c, 'strncpy')
    eng.obligation(s, z3.Or(c == 0, OBJ(d) != OBJ(a)), 'strncpy: no overlap', 'precondition')
    write(eng, s, d, c, lambda k: z3.If(k - d < L, sel(m, a + (k - d)), 0))
    return [(s, d)]

def b_strcat(eng, st, args, rt, hint, n):
    s = st.copy()
    d, a = args
    oblig_str(eng, s, a, 'strcat')
    oblig_str_pre(eng, s, d, 'strcat destination')
    m = HV(eng, s)[M]
    L, D = LEN(m, a), LEN(m, d)
    oblig_room(eng, s, d, D + L + 1, 'strcat')
    eng.obligation(s, OBJ(d) != OBJ(a), 'strcat: no overlap', 'precondition')
    write(eng, s, d + D, L + 1, lambda k: sel(m, a + (k - d - D)))
    eng.assume(s, LEN(HV(eng, s)[M], d) == D + L)
    return [(s, d)]

def b_memcpy(eng, st, args, rt, hint, n):
    s = st.copy()
    d, a, c = args
    oblig_room(eng, s, d, c, 'memcpy')
    h = HV(eng, s)
    x = eng.fresh('rd')
    eng.obligation(s, z3.Implies(z3.And(a <= x, x < a + c), valid(h, x)), 'memcpy: source readable', 'precondition')
    eng.obligation(s, z3.Or(c == 0, d + c <= a, a + c <= d), 'memcpy: no overlap', 'precondition')
    m = h[M]
    write(eng, s, d, c, lambda k: sel(m, a + (k - d)))
    return [(s, d)]

def b_strcmp(eng, st, args, rt, hint, n):
    s = st.copy()
    a, b = args
    oblig_str(eng, s, a, 'strcmp'); oblig_str(eng, s, b, 'strcmp')
    h = HV(eng, s)
    r = eng.fresh('strcmp')
    eng.assume(s, (r == 0) == streq(h, a, h, b))
    eng.assume(s, z3.And(r >= -255, r <= 255))
    return [(s, r)]

def b_strncmp(eng, st, args, rt, hint, n):
    s = st.copy()
    a, b, c = args
    oblig_str(eng, s, a, 'strncmp'); oblig_str(eng, s, b, 'strncmp')
    h = HV(eng, s)
    r = eng.fresh('strncmp')
    eng.assume(s, (r == 0) == streqn(h, a, b, c))
    eng.assume(s, z3.And(r >= -255, r <= 255))
    return [(s, r)]

def streq(h1, a, h2, b):
    m = h1[M]
    return z3.And(LEN(m, a) == LEN(m, b), same(m, a, b, LEN(m, a)))

def streqn(h, a, b, c):
    """equal up to c characters or the first NUL"""
    m = h[M]
    lim = z3.If(LEN(m, a) < LEN(m, b), LEN(m, a), LEN(m, b)) + 1
    return same(m, a, b, z3.If(c < lim, c, lim))

def match_at(m, a, k, t):
    """string t occurs in string a at address k"""
    return z3.And(a <= k, k + LEN(m, t) <= a + LEN(m, a), same(m, k, t, LEN(m, t)))

def nomatch_before(m, a, lim, t):
    k = z3.Int('k!ss')
    return z3.ForAll([k], z3.Implies(z3.And(IDX(k) == k, a <= k, k < lim), z3.Not(match_at(m, a, k, t))), patterns=[IDX(k)])

def b_strstr(eng, st, args, rt, hint, n):
    s = st.copy()
    a, t = args
    oblig_str(eng, s, a, 'strstr'); oblig_str(eng, s, t, 'strstr')
    m = HV(eng, s)[M]
    r = eng.fresh('strstr')
    eng.assume(s, z3.If(r == 0, nomatch_before(m, a, a + LEN(m, a) + 1, t), z3.And(match_at(m, a, r, t), nomatch_before(m, a, r, t))))
    return [(s, r)]

def b_tolower(eng, st, args, rt, hint, n):
    return [(st, TOLOW(args[0]))]
def b_toupper(eng, st, args, rt, hint, n):
    return [(st, TOUP(args[0]))]

def elem_check(eng, st, key, p_, addr):
    return valid(HV(eng, st), addr)

BUILTINS = {'MEMmalloc': b_malloc_total, 'malloc': b_malloc_total, 'MEMfree': b_free, 'free': b_free, 'strlen': b_strlen, 'strcpy': b_strcpy,
            'strncpy': b_strncpy, 'strcat': b_strcat, 'memcpy': b_memcpy, 'strcmp': b_strcmp, 'strncmp': b_strncmp,
            'strstr': b_strstr, 'tolower': b_tolower, 'toupper': b_toupper}
def on_load(eng, st, key, addr):
    if key == M:
        eng.assume(st, IDX(addr) == addr)

def on_store(eng, st, key):
    pass

OPTS = {'on_load': on_load, 'named_stores': (M,), 'live': True, 'elem_check': elem_check, 'mem_owner': lambda key, a: OBJ(a), 'fresh_frame': True}
