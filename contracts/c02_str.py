"""C02: the string library."""
import z3
from ccv.exec import *
from contracts.bytemem import *
import contracts.bytemem as bm

k_ = z3.Int('k!q')
def mods_fresh(c):
    return {M: lambda a: z3.BoolVal(False), 'live': lambda a: z3.Not(c.pre.live(a))}

def S(*idx):
    return lambda c: [('argument %d is a string' % x, is_str(c.pre, c.args[x])) for x in idx]
def SN(*idx):
    return lambda c: [('argument %d is a string or NULL' % x, str_or_null(c.pre, c.args[x])) for x in idx]

def L0(c, x):
    return LEN(c.pre[M], c.args[x])
def lenz(c, a):
    return z3.If(a == 0, 0, LEN(c.pre[M], a))

def mapped_str(c, r, a, n, f):
    mo, mn = c.pre[M], c.post[M]
    return z3.ForAll([k_], z3.Implies(z3.And(r <= k_, k_ < r + n), sel(mn, k_) == f(sel(mo, a + (k_ - r)))), patterns=[sel(mn, k_)])

def ens_copy(n):
    """fresh copy of the first n(c) characters, NULL for NULL"""
    def e(c):
        a = c.args[0]
        return [('NULL for NULL', z3.Implies(a == 0, c.ret == 0)),
                ('fresh string of the right length', z3.Implies(a != 0, fresh_str(c, c.ret, n(c)))),
                ('same characters', z3.Implies(a != 0, copied(c.post[M], c.ret, c.pre[M], a, n(c))))]
    return e

def minlen(c):
    return z3.If(c.args[1] < L0(c, 0), c.args[1], L0(c, 0))

def ens_case(f):
    def e(c):
        a = c.args[0]
        return [('NULL for NULL', z3.Implies(a == 0, c.ret == 0)),
                ('fresh string of the same length', z3.Implies(a != 0, fresh_str(c, c.ret, L0(c, 0)))),
                ('each character converted', z3.Implies(a != 0, mapped_str(c, c.ret, a, L0(c, 0), f)))]
    return e

def ens_inplace(f):
    def e(c):
        a = c.args[0]
        return [('same length', z3.Implies(a != 0, LEN(c.post[M], a) == L0(c, 0))),
                ('each character converted', z3.Implies(a != 0, mapped_str(c, a, a, L0(c, 0), f)))]
    return e

def ens_cat(c):
    a, b = c.args
    la, lb = lenz(c, a), lenz(c, b)
    r = c.ret
    some = z3.Or(a != 0, b != 0)
    return [('NULL only for two NULLs', z3.Implies(z3.Not(some), r == 0)),
            ('fresh string, lengths added', z3.Implies(some, fresh_str(c, r, la + lb))),
            ('first part', z3.Implies(a != 0, copied(c.post[M], r, c.pre[M], a, la))),
            ('second part', z3.Implies(b != 0, copied(c.post[M], r + la, c.pre[M], b, lb)))]

def nullcase(c, both, one):
    a, b = c.args[0], c.args[1]
    return [('both NULL', z3.Implies(z3.And(a == 0, b == 0), truth(c.ret) == both)),
            ('one NULL', z3.Implies((a == 0) != (b == 0), truth(c.ret) == one))]

def ens_eq(c):
    a, b = c.args
    return nullcase(c, True, False) + [('equal contents', z3.Implies(z3.And(a != 0, b != 0), truth(c.ret) == streq(c.pre, a, c.pre, b)))]

def ens_eqci(c):
    a, b = c.args
    m = c.pre[M]
    ci = z3.And(LEN(m, a) == LEN(m, b), same(m, a, b, LEN(m, a), TOLOW))
    return nullcase(c, True, False) + [('equal up to case', z3.Implies(z3.And(a != 0, b != 0), truth(c.ret) == ci))]

def ens_eqn(c):
    a, b, n = c.args
    return nullcase(c, True, n == 0) + [('equal prefixes', z3.Implies(z3.And(a != 0, b != 0), truth(c.ret) == streqn(c.pre, a, b, n)))]

def ens_prefix(c):
    a, b = c.args
    m = c.pre[M]
    return [('NULL is a prefix of everything', z3.Implies(a == 0, truth(c.ret))),
            ('nothing is a prefix of NULL', z3.Implies(z3.And(a != 0, b == 0), z3.Not(truth(c.ret)))),
            ('prefix', z3.Implies(z3.And(a != 0, b != 0), truth(c.ret) == match_at(m, b, b, a)))]

def ens_suffix(c):
    a, b = c.args
    m = c.pre[M]
    return [('NULL is a suffix of everything', z3.Implies(a == 0, truth(c.ret))),
            ('nothing is a suffix of NULL', z3.Implies(z3.And(a != 0, b == 0), z3.Not(truth(c.ret)))),
            ('suffix', z3.Implies(z3.And(a != 0, b != 0), truth(c.ret) == match_at(m, b, b + LEN(m, b) - LEN(m, a), a)))]

def ens_sub(c):
    a, b = c.args
    m = c.pre[M]
    return [('NULL is contained in everything', z3.Implies(a == 0, truth(c.ret))),
            ('nothing is contained in NULL', z3.Implies(z3.And(a != 0, b == 0), z3.Not(truth(c.ret)))),
            ('contained', z3.Implies(z3.And(a != 0, b != 0), z3.Not(truth(c.ret)) == nomatch_before(m, b, b + LEN(m, b) + 1, a)))]

def ens_len(c):
    a = c.args[0]
    return [('length', c.ret == lenz(c, a))]

def sub_bounds(c):
    """documented meaning of start/len: len < 0 is relative to the length; the part is cut at both ends"""
    a, s, l = c.args
    L = lenz(c, a)
    s0 = s
    l1 = z3.If(l < 0, L + l, l)
    l2 = z3.If(s0 + l1 > L, L - s0, l1)
    n = z3.If(z3.Or(s0 > L, l2 < 0), 0, l2)
    return s0, n

def ens_substr(c):
    s0, n = sub_bounds(c)
    return [('fresh string of the right length', fresh_str(c, c.ret, n)),
            ('the right part', copied(c.post[M], c.ret, c.pre[M], c.args[0] + s0, n))]

def ens_onnull(c):
    alt, s = c.args
    return [('alternative exactly for NULL', c.ret == z3.If(s == 0, alt, s))]

def ens_null(c):
    return [('empty string', fresh_str(c, c.ret, 0))]

def templates(L):
    eng = L.eng
    c = L.fctx
    nm = c.contract.name
    out = []
    m0 = c.pre[M]
    ptrs = [(k, n) for (k, n, ty) in L.vars if ty == ('ptr', ('int', 8, True))]
    ints = [(k, n) for (k, n, ty) in L.vars if ty[0] == 'int' and ty[1] >= 32]
    a = c.args[0]
    if nm in ('STRlower', 'STRupper', 'STRtoLower', 'STRtoUpper'):
        f = TOLOW if 'ower' in nm else TOUP
        LL = LEN(m0, a)
        # position expressions: a cursor pointer or an index
        def posns(S):
            return [(k, n, 'p') for (k, n) in ptrs if k in L.modified] + [(k, n, 'i') for (k, n) in ints if k in L.modified]
        for (k, n, kind) in posns(None):
            for (base_n, base) in [('argument', lambda S: a)] + [(n2, (lambda S, k2=k2: L.st.vars[k2])) for (k2, n2) in ptrs if k2 in L.st.vars]:
                off = (lambda S, k=k, kind=kind, base=base: S.v(k) - base(S) if kind == 'p' else S.v(k))
                out.append(('%s within string from %s' % (n, base_n), lambda S, off=off: z3.And(off(S) >= 0, off(S) <= LL)))
                for (k3, n3, kind3) in posns(None):
                    if k3 == k: continue
                    for (b3n, b3) in [('argument', lambda S: a)] + [(n4, (lambda S, k4=k4: L.st.vars[k4])) for (k4, n4) in ptrs if k4 in L.st.vars]:
                        off3 = (lambda S, k3=k3, kind3=kind3, b3=b3: S.v(k3) - b3(S) if kind3 == 'p' else S.v(k3))
                        out.append(('%s-%s in step with %s-%s' % (n, base_n, n3, b3n), lambda S, off=off, off3=off3: off(S) == off3(S)))
                # converted prefix of some target
                tgts = [('argument', lambda S: a)] + [(n4, (lambda S, k4=k4: L.st.vars[k4])) for (k4, n4) in ptrs if k4 in L.st.vars]
                for (tn, tg) in tgts:
                    def conv(S, off=off, tg=tg):
                        mm = S.h[M]; r = tg(S)
                        return z3.ForAll([k_], z3.Implies(z3.And(r <= k_, k_ < r + off(S)), sel(mm, k_) == f(sel(m0, a + (k_ - r)))), patterns=[sel(mm, k_)])
                    out.append(('%s..%s converted (%s)' % (tn, n, base_n), conv))
                def rest(S, off=off):
                    mm = S.h[M]
                    return z3.ForAll([k_], z3.Implies(z3.And(a + off(S) <= k_), sel(mm, k_) == sel(m0, k_)), patterns=[sel(mm, k_)])
                out.append(('rest from %s untouched' % n, rest))
                def rest2(S, off=off):
                    mm = S.h[M]
                    return z3.ForAll([k_], z3.Implies(z3.Or(k_ < a, a + off(S) <= k_), sel(mm, k_) == sel(m0, k_)), patterns=[sel(mm, k_)])
                out.append(('all but the prefix to %s untouched' % n, rest2))
    if nm == 'STReqci':
        b = c.args[1]
        for (k, n) in ints:
            out.append(('%s within both' % n, lambda S, k=k: z3.And(S.v(k) >= 0, S.v(k) <= LEN(m0, a), S.v(k) <= LEN(m0, b))))
            out.append(('equal up to ' + n, lambda S, k=k: same(m0, a, b, S.v(k), TOLOW)))
        mp = [(k, n) for (k, n) in ptrs if k in L.modified]
        for (k, n) in mp:
            for (x, xn) in ((a, 'first'), (b, 'second')):
                out.append(('%s within %s' % (n, xn), lambda S, k=k, x=x: z3.And(S.v(k) >= x, S.v(k) - x <= LEN(m0, a), S.v(k) - x <= LEN(m0, b))))
                out.append(('equal up to %s in %s' % (n, xn), lambda S, k=k, x=x: same(m0, a, b, S.v(k) - x, TOLOW)))
            for (k2, n2) in mp:
                if k2 != k:
                    out.append(('in step %s %s' % (n, n2), lambda S, k=k, k2=k2: S.v(k) - a == S.v(k2) - b))
    for key in sorted(L.mkeys):
        out.append(('frame ' + key, lambda S, key=key: z3.BoolVal(True) if S.h[key].eq(L.entry[key]) else S.h[key] == L.entry[key]))
    return out

def measures(L):
    c = L.fctx
    m0 = c.pre[M]
    out = []
    for (k, n, ty) in L.vars:
        if k in L.modified:
            for x in c.args:
                if ty[0] == 'ptr':
                    out.append((n + ' advances', lambda S, k=k, x=x: x + LEN(m0, x) - S.v(k)))
                elif ty[0] == 'int':
                    out.append((n + ' advances', lambda S, k=k, x=x: LEN(m0, x) - S.v(k)))
    return out

def contracts():
    C = {}
    def add(name, req, ens, mods=mods_fresh):
        c = Contract(name, req, ens, mods)
        c.templates = templates
        c.measures = measures
        C[name] = c
    none = lambda c: {}
    add('STRlen', SN(0), ens_len, none)
    add('STRnull', lambda c: [], ens_null)
    add('STRcpy', SN(0), ens_copy(lambda c: L0(c, 0)))
    add('STRncpy', lambda c: SN(0)(c) + [('maxlen >= 0', c.args[1] >= 0)], ens_copy(minlen))
    add('STRsubStr', lambda c: S(0)(c) + [('start >= 0, end representable', z3.And(c.args[1] >= 0, c.args[1] + c.args[2] < 2**31, c.args[1] + c.args[2] + lenz(c, c.args[0]) < 2**31))], ens_substr)
    add('STRcat', lambda c: SN(0, 1)(c) + [('total length', lenz(c, c.args[0]) + lenz(c, c.args[1]) < 2**31 - 16)], ens_cat)
    add('STReq', SN(0, 1), ens_eq, none)
    add('STReqci', SN(0, 1), ens_eqci, none)
    add('STReqn', lambda c: SN(0, 1)(c) + [('n >= 0', c.args[2] >= 0)], ens_eqn, none)
    add('STRprefix', SN(0, 1), ens_prefix, none)
    add('STRsuffix', SN(0, 1), ens_suffix, none)
    add('STRsub', SN(0, 1), ens_sub, none)
    add('STRonNull', lambda c: [], ens_onnull, none)
    add('STRlower', SN(0), ens_case(TOLOW))
    add('STRupper', SN(0), ens_case(TOUP))
    own = lambda c: {M: lambda a: z3.And(c.args[0] <= a, a < c.args[0] + L0(c, 0))}
    add('STRtoLower', SN(0), ens_inplace(TOLOW), own)
    add('STRtoUpper', SN(0), ens_inplace(TOUP), own)
    return C
