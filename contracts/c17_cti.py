"""C17: diagnostics (palm/src/ctinfo.c)."""
import z3
from ccv import runner
from ccv.exec import *
from contracts.bytemem import *
import contracts.bytemem as bm

FLEN = z3.Function('fmtlen', I, I)          # length of the message a format (with its arguments) stands for
FCH = z3.Function('fmtchar', I, I, I)       # its characters
f_ = z3.Int('f')
k_ = z3.Int('k!q')
AXIOMS = bm.AXIOMS + [
    z3.ForAll([f_], z3.And(FLEN(f_) >= 0, FLEN(f_) < 2**31 - 64), patterns=[FLEN(f_)]),
    z3.ForAll([f_, i], z3.And(FCH(f_, i) != 0, FCH(f_, i) >= -128, FCH(f_, i) < 128), patterns=[FCH(f_, i)]),
]
BUF, SIZE, ERR, WARN = 'g:message_buffer', 'g:message_buffer_size', 'g:errors', 'g:warnings'
TOK, TS, PR, LOST, CUR = 'ghost:tok', 'ghost:ts', 'ghost:printed', 'ghost:lost', 'ghost:fmt'

def g(h, key):
    return z3.Select(h[key], 0)

def setg(eng, s, key, v):
    s.heap[key] = z3.Store(eng.harr(s, key), 0, v)

def blank(c, brk=None):
    o = [c == 32, c == 9, c == 10]
    if brk is not None:
        o.append(c == brk)
    return z3.Or(o)

def b_vsnprintf(eng, st, args, rt, hint, n):
    s = st.copy()
    buf, size, fmt = args[0], args[1], args[2]
    oblig_room(eng, s, buf, size, 'vsnprintf')
    L = FLEN(fmt)
    w = z3.If(size == 0, 0, z3.If(L < size - 1, L, size - 1))
    write(eng, s, buf, z3.If(size == 0, 0, w + 1), lambda k: z3.If(k - buf < w, FCH(fmt, k - buf), 0))
    eng.assume(s, z3.Implies(size > 0, LEN(HV(eng, s)[M], buf) == w))
    return [(s, L)]

def literal(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
        n = n['inner'][0]
    if n.get('kind') == 'StringLiteral':
        import ast
        try:
            return ast.literal_eval(n['value'])
        except Exception:
            return None
    return None

def b_strtok(eng, st, args, rt, hint, n):
    d = literal(n['inner'][2])
    if not d:
        raise Unsupported('strtok with computed separators')
    isd = lambda c: z3.Or([c == ord(x) for x in d])
    res = []
    h = HV(eng, st)
    p0 = z3.If(args[0] != 0, args[0], g(h, TOK))
    base = st.copy()
    h = HV(eng, base)
    m = h[M]
    p = eng.fresh('tokp'); eng.assume(base, p == p0)
    eng.obligation(base, is_str(h, p), 'strtok: argument is a string', 'precondition')
    # the previous token must have been printed, the first call starts on the whole message
    eng.obligation(base, z3.Implies(args[0] == 0, z3.Or(g(h, TS) == 0, g(h, PR) == 1)), 'every part of the message is printed before the next one is taken', 'safety')
    fmt = g(h, CUR)
    eng.obligation(base, z3.Implies(args[0] != 0, z3.And(args[0] == g(h, BUF), message_ok(h, fmt))), 'the whole formatted message is printed (only blanks may be replaced)', 'safety')
    # separators other than blanks would be lost
    for x in d:
        if x not in ' \t\n':
            eng.obligation(base, z3.Implies(args[0] != 0, z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < FLEN(fmt)), FCH(fmt, k_) != ord(x)), patterns=[FCH(fmt, k_)])), 'no printable character of the message is taken for a line break', 'safety')
    E = p + LEN(m, p)
    k = z3.Int('k!tk')
    s1 = base.copy()                        # no token left
    eng.assume(s1, z3.ForAll([k], z3.Implies(z3.And(p <= k, k < E), isd(sel(m, k))), patterns=[sel(m, k)]))
    setg(eng, s1, TS, IntV(0))
    setg(eng, s1, TOK, E)
    res.append((s1, IntV(0)))
    s2 = base
    r, e = eng.fresh('token'), eng.fresh('tokend')
    eng.assume(s2, z3.And(p <= r, r < e, e <= E, r > 0))
    eng.assume(s2, z3.ForAll([k], z3.Implies(z3.And(p <= k, k < r), isd(sel(m, k))), patterns=[sel(m, k)]))
    eng.assume(s2, z3.ForAll([k], z3.Implies(z3.And(r <= k, k < e), z3.Not(isd(sel(m, k)))), patterns=[sel(m, k)]))
    eng.assume(s2, z3.Implies(e < E, isd(sel(m, e))))
    nxt = z3.If(e < E, e + 1, E)
    t = eng.fresh('tokn'); eng.assume(s2, t == nxt)
    write(eng, s2, e, 1, lambda kk: IntV(0))
    m2 = HV(eng, s2)[M]
    eng.assume(s2, z3.And(LEN(m2, r) == e - r, LEN(m2, t) == E - t, OBJ(t) == OBJ(p), OBJ(r) == OBJ(p)))
    setg(eng, s2, TS, r); setg(eng, s2, PR, IntV(0)); setg(eng, s2, TOK, t)
    res.append((s2, r))
    return res

def b_fprintf(eng, st, args, rt, hint, n):
    s = st.copy()
    h = HV(eng, s)
    lit = literal(n['inner'][2]) if len(n['inner']) > 2 else None
    va = args[2:]
    printed = z3.Or([z3.And(a == g(h, TS), g(h, TS) != 0) for a in va]) if va else z3.BoolVal(False)
    if lit is not None and lit.count('%') - 2 * lit.count('%%') < len(va):
        printed = z3.BoolVal(False)
    setg(eng, s, PR, z3.If(printed, 1, g(h, PR)))
    return [(s, eng.fresh('nprinted'))]

def b_exit(eng, st, args, rt, hint, n):
    s = st.copy()
    eng.obligation(s, args[0] % 256 != 0, 'the program ends with a failure status', 'postcondition')
    eng.aborts(s, 'exit')
    return []

BUILTINS = {'MEMmalloc': bm.b_malloc_total, 'MEMfree': bm.b_free, 'malloc': bm.b_malloc_total, 'free': bm.b_free, 'strlen': bm.b_strlen, 'strcpy': bm.b_strcpy,
            'vsnprintf': b_vsnprintf, 'strtok': b_strtok, 'fprintf': b_fprintf, 'exit': b_exit, 'STRcat': None, 'STRfmt': None}
BUILTINS = {k: v for k, v in BUILTINS.items() if v}

def inv(h):
    b, z = g(h, BUF), g(h, SIZE)
    return z3.Or(z3.And(b == 0, z == 0), z3.And(b > 0, z > 0, OBJ(b) == b, BSZ(b) == z, h.live(b)))

def message_ok(h, fmt):
    """the buffer holds the message of fmt, up to blanks"""
    m, b = h[M], g(h, BUF)
    return z3.And(b > 0, LEN(m, b) == FLEN(fmt),
                  z3.ForAll([k_], z3.Implies(z3.And(b <= k_, k_ < b + FLEN(fmt)), z3.Or(sel(m, k_) == FCH(fmt, k_ - b), z3.And(blank(FCH(fmt, k_ - b)), blank(sel(m, k_))))), patterns=[sel(m, k_)]))

def buf_mods(c):
    old = g(c.pre, BUF)
    return {M: lambda a: z3.And(old != 0, OBJ(a) == old), 'live': lambda a: z3.Or(z3.Not(c.pre.live(a)), z3.And(a == old, a != 0)), BUF: None, SIZE: None}

def print_mods(c):
    d = buf_mods(c)
    for k in (TOK, TS, PR, CUR):
        d[k] = None
    return d

def templates(L):
    c = L.fctx
    eng = L.eng
    nm = c.contract.name
    out = []
    ints = [(k, n) for (k, n, ty) in L.vars if ty[0] == 'int' and ty[1] >= 32]
    if nm == 'ProcessMessage':
        b, m0 = c.args[0], c.pre[M]
        L0 = LEN(m0, b)
        out.append(('still a string of the same length', lambda S: LEN(S.h[M], b) == L0))
        out.append(('only blanks replaced', lambda S: proc_rel(S.h[M], m0, b, L0, c.args[2])))
        out.append(('outside untouched', lambda S: z3.ForAll([k_], z3.Implies(z3.Or(k_ < b, k_ >= b + L0), sel(S.h[M], k_) == sel(m0, k_)), patterns=[sel(S.h[M], k_)])))
        for (k, n) in ints:
            out.append(('%s >= 0' % n, lambda S, k=k: S.v(k) >= 0))
            out.append(('%s <= len' % n, lambda S, k=k: S.v(k) <= L0))
            for (k2, n2) in ints:
                if k2 != k:
                    out.append(('%s <= %s' % (n, n2), lambda S, k=k, k2=k2: S.v(k) <= S.v(k2)))
    if nm == 'PrintMessage':
        fmt = c.args[1]
        ptrs = [(k, n) for (k, n, ty) in L.vars if ty == ('ptr', ('int', 8, True))]
        def Eof(S):
            return g(S.h, BUF) + FLEN(fmt)
        out.append(('buffer invariant', lambda S: inv(S.h)))
        out.append(('resume position', lambda S: z3.And(g(S.h, TOK) >= g(S.h, BUF), g(S.h, TOK) <= Eof(S), OBJ(g(S.h, TOK)) == g(S.h, BUF), LEN(S.h[M], g(S.h, TOK)) == Eof(S) - g(S.h, TOK))))
        out.append(('buffer is large enough', lambda S: z3.And(g(S.h, BUF) > 0, OBJ(Eof(S)) == g(S.h, BUF))))
        out.append(('the buffer is the old one or fresh', lambda S: z3.Or(g(S.h, BUF) == g(c.pre, BUF), z3.Not(c.pre.live(g(S.h, BUF))))))
        if c.args[4] is not None:
            out.append(('position record', lambda S: z3.Or(c.args[4] == 0, z3.And(S.h.live(c.args[4]), c.args[4] != g(S.h, BUF)))))
        out.append(('message', lambda S: g(S.h, CUR) == fmt))
        for (k, n) in ptrs:
            out.append(('%s is the current part' % n, lambda S, k=k: S.v(k) == g(S.h, TS)))
            out.append(('%s before resume' % n, lambda S, k=k: z3.Implies(S.v(k) != 0, z3.And(S.v(k) < g(S.h, TOK) , S.v(k) >= g(S.h, BUF)))))
    for key in sorted(L.mkeys):
        out.append(('unchanged ' + key, lambda S, key=key: z3.BoolVal(True) if S.h[key].eq(L.entry[key]) else S.h[key] == L.entry[key]))
    return out

def measures(L):
    c = L.fctx
    out = []
    if c.contract.name == 'ProcessMessage':
        for (k, n, ty) in L.vars:
            if k in L.modified and ty[0] == 'int':
                out.append((n + ' advances', lambda S, k=k: LEN(c.pre[M], c.args[0]) - S.v(k)))
    if c.contract.name == 'PrintMessage':
        for (k, n, ty) in L.vars:
            if k in L.modified and ty[0] == 'ptr':
                out.append((n + ' advances', lambda S, k=k: z3.If(S.v(k) == 0, 0, g(S.h, BUF) + FLEN(c.args[1]) + 1 - S.v(k))))
    for (k, n, ty) in L.vars:       # column loops of PrintLocation: c up to a field of the position record
        if k in L.modified and ty[0] == 'int':
            out.append((n + ' up', lambda S, k=k: 2**31 - S.v(k)))
    return out

def proc_rel(mn, mo, b, L0, brk):
    return z3.ForAll([k_], z3.Implies(z3.And(b <= k_, k_ < b + L0), z3.Or(sel(mn, k_) == sel(mo, k_), z3.And(blank(sel(mo, k_)), z3.Or(sel(mn, k_) == 32, sel(mn, k_) == brk)))), patterns=[sel(mn, k_)])

def contracts():
    C = {}
    def add(name, req, ens, mods, **kw):
        C[name] = Contract(name, req, ens, mods, **kw)
        C[name].templates = templates
        C[name].measures = measures
    I_ = lambda c: [('message buffer invariant', inv(c.pre))]
    add('Format2Buffer', I_, lambda c: [
        ('message buffer invariant', inv(c.post)),
        ('the buffer is the old one or fresh', z3.Or(g(c.post, BUF) == g(c.pre, BUF), z3.Not(c.pre.live(g(c.post, BUF))))),
        ('the buffer holds the complete message', z3.And(g(c.post, BUF) > 0, LEN(c.post[M], g(c.post, BUF)) == FLEN(c.args[0]), g(c.post, SIZE) > FLEN(c.args[0]))),
        ('the characters of the message', z3.ForAll([k_], z3.Implies(z3.And(g(c.post, BUF) <= k_, k_ < g(c.post, BUF) + FLEN(c.args[0])), sel(c.post[M], k_) == FCH(c.args[0], k_ - g(c.post, BUF))), patterns=[sel(c.post[M], k_)]))],
        buf_mods)
    def pm_ens(c):
        b = c.args[0]
        L0 = LEN(c.pre[M], b)
        return [('same length', LEN(c.post[M], b) == L0), ('only blanks are replaced, by blanks or line breaks', proc_rel(c.post[M], c.pre[M], b, L0, c.args[2]))]
    add('ProcessMessage', lambda c: [('string', is_str(c.pre, c.args[0])), ('line break character', z3.And(c.args[2] != 0))], pm_ens,
        lambda c: {M: lambda a: z3.And(c.args[0] <= a, a < c.args[0] + LEN(c.pre[M], c.args[0]))})
    def print_req(c):
        return [('message buffer invariant', inv(c.pre)), ('header', is_str(c.pre, c.args[0])), ('header is not the buffer', OBJ(c.args[0]) != g(c.pre, BUF)),
                ('current message', g(c.pre, CUR) == c.args[1]),
                ('position record', z3.Or(c.args[4] == 0, z3.And(c.pre.live(c.args[4]), c.args[4] != g(c.pre, BUF))))]
    def print_ens(c):
        return [('message buffer invariant', inv(c.post)), ('every part of the message was taken (and printed)', g(c.post, TS) == 0)]
    add('PrintInfo', lambda c: [('position record', z3.Or(c.args[0] == 0, c.pre.live(c.args[0])))], lambda c: [], lambda c: {PR: None})
    add('PrintMessage', print_req, print_ens, print_mods)
    def cti_ens(off):
        def e(c):
            ty = c.args[0]
            return [('an error message counts as one error, others do not', g(c.post, ERR) == g(c.pre, ERR) + z3.If(ty == CTI_ERROR, 1, 0)),
                    ('a warning counts as one warning, others do not', g(c.post, WARN) == g(c.pre, WARN) + z3.If(ty == CTI_WARN, 1, 0)),
                    ('message buffer invariant', inv(c.post)),
                    ('the message was printed', g(c.post, TS) == 0)]
        return e
    def cti_req(fmt):
        return lambda c: [('message type', z3.And(c.args[0] >= 0, c.args[0] < NTYPES)), ('message buffer invariant', inv(c.pre)), ('counts do not overflow', z3.And(g(c.pre, ERR) < 2**31 - 1, g(c.pre, WARN) < 2**31 - 1, g(c.pre, ERR) >= 0, g(c.pre, WARN) >= 0)),
                          ('current message', g(c.pre, CUR) == c.args[fmt])] + [
                          ('headers are strings', z3.And([z3.And(is_str(c.pre, g(c.pre, hd)), OBJ(g(c.pre, hd)) != g(c.pre, BUF), g(c.pre, hd) != 0) for hd in HEADERS]))]
    mm = lambda c: dict(print_mods(c), **{ERR: None, WARN: None})
    add('CTI', cti_req(2), cti_ens(0), mm, allow_abort=False)
    add('CTIobj', cti_req(3), cti_ens(1), mm, allow_abort=False)
    none = lambda c: {}
    add('CTIabortOnError', lambda c: [('error count >= 0', g(c.pre, ERR) >= 0)], lambda c: [('returns only without errors', g(c.pre, ERR) == 0)], none,
        allow_abort=lambda c: g(c.pre, ERR) != 0)
    gh = lambda c: {TS: None, TOK: None, PR: None, ERR: None}
    add('CTIabortCompilation', lambda c: [], lambda c: [('never returns', z3.BoolVal(False))], gh)
    add('CTIabortOutOfMemory', lambda c: [('count', g(c.pre, ERR) < 2**31 - 1)], lambda c: [('never returns', z3.BoolVal(False))], gh)
    add('CTIgetErrors', lambda c: [], lambda c: [('error count', c.ret == g(c.pre, ERR))], none)
    add('CTIgetWarnings', lambda c: [], lambda c: [('warning count', c.ret == g(c.pre, WARN))], none)
    return C

HEADERS = ['g:warn_message_header', 'g:error_message_header', 'g:note_message_header', 'g:state_message_header']
def _enum():
    import re, os
    t = open(os.path.join(runner.REPO, 'palm/include/palm/ctinfo.h')).read()
    names = re.findall(r'CTI_[A-Z]+', re.search(r'enum\s+cti_type\s*{([^}]*)}', t).group(1))
    return {n: k for k, n in enumerate(names)}
_E = _enum()
CTI_WARN, CTI_ERROR, NTYPES = _E['CTI_WARN'], _E['CTI_ERROR'], len(_E)

def on_strlit(eng, t, text):
    return [z3.And(t > 0)]

OPTS = dict(bm.OPTS)
def unit(fns=None):
    o = dict(OPTS)
    def on_local(eng, st, a):       # locals are live and apart from the heap
        eng.assume(st, z3.And(z3.Select(eng.harr(st, 'live'), a), a != z3.Select(eng.harr(st, BUF), 0)))
    o['on_local'] = on_local
    return runner.Unit('palm/src/ctinfo.c', ['palm/src/ctinfo.c'], contracts, functions=fns,
                       engine=dict(axioms=AXIOMS, builtins=BUILTINS, opts=o))
