"""C08: the name tables of the compiler front end (cocogen/frontend/symboltable.c,
buildsymboltable.c, check_existance.c).

The nodes of the compiler's own tree are seen through their generated accessors: each
accessor is a field of its own ('N.<type>_<field>').  A name table is a linked list of
STE nodes; ghosts per entry: own (the list it belongs to; a fresh entry is a list of its
own), pos (rank), and at[pair(list, contents of a key)] the first entry with that key.
BOUND(table, id) is the value of that entry, or NULL.

ERR counts errors reported (CTI, CTIobj with CTI_ERROR), SUB those reported by
sub-traversals: what a handler reports itself is the difference."""
import z3, re, os
from ccv import runner
from ccv.exec import *

NX, KEY, VAL, LWR, UPR, TY = 'N.ste_next', 'N.ste_key', 'N.ste_value', 'N.id_lwr', 'N.id_upr', 'ccn_node.nodetype'
OWN, POS, AT, ERR, SUB, VIS = ['ghost:' + x for x in ('own', 'pos', 'at', 'err', 'sub', 'visited')]
CS = z3.Function('contents', I, I)
PAIR = z3.Function('pairS', I, I, I)
P1, P2 = z3.Function('pairS1', I, I), z3.Function('pairS2', I, I)
x, y, c_ = z3.Ints('x!s y!s c!s')
AXIOMS = [z3.ForAll([x, y], z3.And(P1(PAIR(x, y)) == x, P2(PAIR(x, y)) == y), patterns=[PAIR(x, y)])]

def sel(h, k, a): return z3.Select(h[k], a)
def g0(h, k): return z3.Select(h[k], 0)
def own(h, e): return sel(h, OWN, e)
def ck(h, e): return CS(sel(h, LWR, sel(h, KEY, e)))
def C(h, i): return CS(sel(h, LWR, i))
def at(h, L, c): return sel(h, AT, PAIR(L, c))
def lv(h, hd, c):
    """the value bound to a key with contents c in the table that starts at hd"""
    L = own(h, hd)
    e = at(h, L, c)
    return z3.If(z3.And(hd != 0, own(h, e) == L, ck(h, e) == c), sel(h, VAL, e), 0)
def gl(h, name): return g0(h, 'g:' + name)

TBL = [NX, KEY, VAL, OWN, POS, AT]
def wf(h, hd):
    """the table that starts at hd is well formed: labelled formulas"""
    L = own(h, hd)
    O = lambda e: own(h, e) == L
    nx = lambda e: sel(h, NX, e)
    p = lambda e: sel(h, POS, e)
    return [('identity', z3.And(hd > 0, L > 0, own(h, L) == L)),
         ('starts with the first entry', z3.ForAll([y], z3.Implies(O(y), p(hd) <= p(y)), patterns=[sel(h, OWN, y)])),
         ('entries', z3.ForAll([x], z3.Implies(O(x), z3.And(x > 0, sel(h, VAL, x) != 0)), patterns=[sel(h, OWN, x)])),
         ('links', z3.ForAll([x], z3.Implies(z3.And(O(x), nx(x) != 0), z3.And(O(nx(x)), p(nx(x)) > p(x))), patterns=[sel(h, NX, x)])),
         ('no gap', z3.ForAll([x, y], z3.Implies(z3.And(O(x), O(y), p(x) < p(y)), z3.And(nx(x) != 0, p(nx(x)) <= p(y))), patterns=[z3.MultiPattern(sel(h, NX, x), sel(h, OWN, y))])),
         ('ranks', z3.ForAll([x, y], z3.Implies(z3.And(O(x), O(y), p(x) == p(y)), x == y), patterns=[z3.MultiPattern(sel(h, POS, x), sel(h, POS, y))])),
         ('first entry of each key', z3.ForAll([x], z3.Implies(O(x), z3.And(O(at(h, L, ck(h, x))), ck(h, at(h, L, ck(h, x))) == ck(h, x), p(at(h, L, ck(h, x))) <= p(x))), patterns=[sel(h, OWN, x)]))]
def wf_end(h, fs, ls):
    L = own(h, fs)
    return [('its last entry is known', z3.And(own(h, ls) == L, ls > 0, z3.ForAll([y], z3.Implies(own(h, y) == L, sel(h, POS, y) <= sel(h, POS, ls)), patterns=[sel(h, OWN, y)])))]

# abbreviations, for the functions that work with tables through the three operations only
_A = [AII] * len(TBL)
WFO = z3.Function('well_formed', *_A, I, z3.BoolSort())
ENDO = z3.Function('ends_at', *_A, I, I, z3.BoolSort())
LVF = z3.Function('bound_value', *_A, I, I, I)
def arrs(h): return [h[k] for k in TBL]
def W(h, hd): return z3.Or(hd == 0, z3.And(hd > 0, WFO(*arrs(h), hd)))
def B(h, hd, c): return z3.If(hd == 0, 0, LVF(*arrs(h), hd, c))
KEYS = lambda h, hd: LVF(*(arrs(h) + [hd, c_]))
# ---- effects ---------------------------------------------------------------
def setg(eng, s, k, v): s.heap[k] = z3.Store(eng.harr(s, k), 0, v)

def on_store(eng, s, key, addr, val):
    """the ghost view follows the stores to the links and keys"""
    if key not in (NX, KEY):
        return
    h = HV(eng, s)
    fresh = [p for (p, _) in s.allocs]
    if key == NX:
        if z3.is_int_value(val) and val.as_long() == 0:
            return
        if any(val.eq(p) for p in fresh):        # a new entry behind an old one
            a, v = addr, val
            L = own(h, a)
            was = z3.And(own(h, at(h, L, ck(h, v))) == L, ck(h, at(h, L, ck(h, v))) == ck(h, v))
            na = z3.If(was, h[AT], z3.Store(h[AT], PAIR(L, ck(h, v)), v))
            s.heap[POS] = z3.Store(h[POS], v, sel(h, POS, a) + 1)
            s.heap[AT] = na
            s.heap[OWN] = z3.Store(h[OWN], v, L)
        elif any(addr.eq(p) for p in fresh):     # a new entry before an old one
            a, v = addr, val
            L = own(h, v)
            na = z3.Store(h[AT], PAIR(L, ck(h, a)), a)
            n_p = z3.Store(h[POS], a, sel(h, POS, v) - 1)
            if eng.entails(s.pc, v != 0):
                s.heap[POS], s.heap[AT], s.heap[OWN] = n_p, na, z3.Store(h[OWN], a, L)
            else:
                s.heap[POS] = z3.If(v != 0, n_p, h[POS])
                s.heap[AT] = z3.If(v != 0, na, h[AT])
                s.heap[OWN] = z3.If(v != 0, z3.Store(h[OWN], a, L), h[OWN])
    else:
        L = own(h, addr)
        if any(addr.eq(p) for p in fresh) and not (z3.is_int_value(val) and val.as_long() == 0):
            s.heap[AT] = z3.Store(h[AT], PAIR(L, CS(sel(h, LWR, val))), addr)

def b_malloc(eng, st, args, rt, hint, n):
    s = st.copy()
    p = eng.fresh('alloc')
    h = HV(eng, s)
    eng.assume(s, z3.And(p > 0, own(h, p) == 0))
    eng.assume(s, z3.ForAll([x], own(h, x) != p, patterns=[sel(h, OWN, x)]))      # lists are named after allocated entries
    for (q, _) in s.allocs:
        eng.assume(s, p != q)
    s.allocs.append((p, None))
    s.heap[OWN] = z3.Store(eng.harr(s, OWN), p, p)
    s.heap[POS] = z3.Store(eng.harr(s, POS), p, 0)
    return [(s, p)]

def b_cti(eng, st, args, rt, hint, n):
    s = st.copy()
    setg(eng, s, ERR, g0(HV(eng, s), ERR) + z3.If(args[0] == eng.tu_of().enums['CTI_ERROR'], 1, 0))
    return [(s, eng.fresh('void'))]

def b_abort_on_error(eng, st, args, rt, hint, n):
    s = st.copy()
    eng.assume(s, g0(HV(eng, s), ERR) == 0)
    setg(eng, s, 'ghost:stopped', IntV(1))
    return [(s, eng.fresh('void'))]

def b_streq(eng, st, args, rt, hint, n):
    return [(st, b2i(CS(args[0]) == CS(args[1])))]

def b_strcpy(eng, st, args, rt, hint, n):
    s = st.copy()
    p = eng.fresh('str')
    eng.assume(s, z3.And(p > 0, CS(p) == CS(args[0])))
    return [(s, p)]

def b_nop(v=None):
    def b(eng, st, args, rt, hint, n):
        return [(st, IntV(0) if v is None else eng.fresh('nop'))]
    return b

def accessor(name):
    key = 'N.' + name[len('CCNaccess_'):]
    def b(eng, st, args, rt, hint, n):
        s = st.copy()
        return [(s, eng.fa_term(s, key, args[-1], rt[1]))]
    return b

class Builtins(dict):
    """accessors of the compiler's own tree, and traversal of children"""
    def __init__(self, d, trav):
        dict.__init__(self, d)
        self.trav = trav
    def __contains__(self, n):
        return dict.__contains__(self, n) or n.startswith('CCNaccess_') or (n.startswith('TRAV') and n[4:5].islower())
    def __getitem__(self, n):
        if dict.__contains__(self, n):
            return dict.__getitem__(self, n)
        if n.startswith('CCNaccess_'):
            return accessor(n)
        return self.trav(n)
    def get(self, n, d=None):
        return self[n] if n in self else d

VISNO = {}
def visbit(name):
    return VISNO.setdefault(name, len(VISNO) + 1)
def visited(h, name):
    return z3.Or(sel(h, VIS, visbit('children')) == 1, sel(h, VIS, visbit(name)) == 1)

def tables_kept(pre, post, hd0, hd1):
    """the table only grows, and nothing in it is bound anew"""
    L = own(pre, hd0)
    return z3.Implies(hd0 != 0, z3.And(hd1 != 0, own(post, hd1) == L,
              z3.ForAll([c_], z3.Implies(B(pre, hd0, c_) != 0, B(post, hd1, c_) == B(pre, hd0, c_)), patterns=[KEYS(pre, hd0), KEYS(post, hd1)])))

def errors(pre, post):
    return z3.And(g0(post, ERR) - g0(pre, ERR) == g0(post, SUB) - g0(pre, SUB), g0(post, SUB) >= g0(pre, SUB))

def trav(stage):
    """induction hypothesis: what the traversal of children does"""
    def mk(name):
        def b(eng, st, args, rt, hint, n):
            s = st.copy()
            h = HV(eng, s)
            cx = eng.frames[0]['ctx']
            nm = eng.frames[0]['contract'].name[3:]
            eng.obligation(s, args[0] == cx.args[0], 'the traversal goes on below this node', 'safety')
            for (l, f) in stage['inv'](h):
                eng.obligation(s, f, 'before the children: ' + l, 'safety')
            for (l, f) in stage['before'](h, nm, name):
                eng.obligation(s, f, 'before the children: ' + l, 'safety')
            pre = HV(eng, s.copy(), s)
            for k in TBL:
                s.heap[k] = eng.fresh(k, eng.sort_of_key(k))
            for k in [ERR, SUB] + ['g:' + q for q in stage['vars']]:
                setg(eng, s, k, eng.fresh(k))
            post = HV(eng, s)
            for (l, f) in stage['inv'](post) + stage['rel'](pre, post, nm, name):
                eng.assume(s, f)
            eng.assume(s, errors(pre, post))
            s.heap[VIS] = z3.Store(eng.harr(s, VIS), visbit(name[4:]), 1)
            r = eng.fresh('tree')
            return [(s, r)]
        return b
    return mk

# ---- specifications --------------------------------------------------------
def own_errors(c):
    return (g0(c.post, ERR) - g0(c.pre, ERR)) - (g0(c.post, SUB) - g0(c.pre, SUB))

def f(c, name, h=None): return sel(h or c.pre, 'N.' + name, c.args[0])

def enum(c, n): return c.eng.tus[0].enums[n]

VAT, IDX, VN, DUP = z3.Function('value_at', I, I), z3.Function('place_of_value', I, I), z3.Int('number_of_values'), z3.Bool('two_values_are_the_same')

def bst():
    T, P = ('first_ste', 'last_ste'), 'pass_ste'
    def inv(h):
        fs, ls, ps = gl(h, 'first_ste'), gl(h, 'last_ste'), gl(h, P)
        L = own(h, fs)
        return [('table of definitions', W(h, fs)), ('table of pass functions', W(h, ps)),
            ('the end of the table of definitions is known', z3.And((fs == 0) == (ls == 0), z3.Implies(fs != 0, ENDO(*arrs(h), fs, ls)))),
            ('ghost', own(h, 0) == 0), ('two tables', z3.Implies(z3.And(fs != 0, ps != 0), own(h, fs) != own(h, ps)))]
    def rel(pre, post, nm, trv):
        return [('definitions stay', tables_kept(pre, post, gl(pre, T[0]), gl(post, T[0]))),
                ('pass functions stay', tables_kept(pre, post, gl(pre, P), gl(post, P)))]
    stage = dict(inv=inv, rel=rel, vars=list(T) + [P], before=lambda h, nm, trv: [])

    def req(c):
        return inv(c.pre) + [('ghost', z3.And(g0(c.pre, ERR) >= 0, g0(c.pre, SUB) >= 0)),
                             ('nothing visited', z3.ForAll([x], sel(c.pre, VIS, x) == 0, patterns=[sel(c.pre, VIS, x)])), ('node', c.args[0] > 0)]
    def ens(names, func=None):
        def e(c):
            h = c.pre
            ids = [f(c, n) for n in names]
            def bound(i): return B(h, gl(h, T[0]), C(h, i)) != 0
            bad = []
            for k, i in enumerate(ids):
                b = [bound(i)] + [z3.And(j != 0, C(h, i) == C(h, j)) for j in ids[:k]]
                bad.append(z3.And(i != 0, z3.Or(b)))
            if func:
                i = f(c, func)
                bad.append(z3.And(i != 0, B(h, gl(h, P), C(h, i)) != 0))
            out = inv(c.post) + rel(c.pre, c.post, None, None)
            if ids:
                out.append(('an error is reported exactly when the name%s bound already' % (' or uid is' if len(names) > 1 else ' is'), (own_errors(c) > 0) == z3.Or(bad)))
            for n, i in zip(names, ids):
                out.append(('the %s is bound afterwards' % n.split('_')[-1], z3.Implies(i != 0, B(c.post, gl(c.post, T[0]), C(h, i)) != 0)))
                out.append(('the %s is bound to this definition if no error was reported' % n.split('_')[-1], z3.Implies(z3.And(i != 0, own_errors(c) == 0), B(c.post, gl(c.post, T[0]), C(h, i)) == c.args[0])))
            if func:
                i = f(c, func)
                out.append(('the function is known afterwards', z3.Implies(i != 0, B(c.post, gl(c.post, P), C(h, i)) != 0)))
            if not ids:
                out.append(('no error of its own', own_errors(c) == 0))
            out += [('errors only grow', own_errors(c) >= 0), ('all definitions below are reached', visited(c.post, 'next')), ('the tree is kept', c.ret == c.args[0])]
            return out
        return e
    K = {}
    def nn(names):
        return lambda c: req(c) + [('a name', f(c, names[0]) > 0)] + [('the optional parts', f(c, n) >= 0) for n in names[1:] + (['ipass_target_func'] if names[0] == 'ipass_name' else [])]
    for hname, names, func in (('iphase', ['iphase_name', 'iphase_iprefix'], None), ('itraversal', ['itraversal_name', 'itraversal_iprefix'], None),
                               ('ipass', ['ipass_name', 'ipass_iprefix'], 'ipass_target_func'), ('inode', ['inode_name'], None), ('inodeset', ['inodeset_name'], None), ('ienum', ['ienum_name'], None)):
        K['BST' + hname] = Contract('BST' + hname, nn(names), ens(names, func), lambda c: '*')
    K['BSTiactions'] = Contract('BSTiactions', req, ens([]), lambda c: '*')
    def ast_req(c):
        s0 = f(c, 'ast_stable')
        return req(c) + [('a fresh run', z3.And(gl(c.pre, T[0]) == 0, gl(c.pre, T[1]) == 0, gl(c.pre, P) == 0, s0 == 0))]
    def ast_ens(c):
        st = f(c, 'ast_stable', c.post)
        return [('table of definitions', W(c.post, st)), ('returns only without errors', z3.And(g0(c.post, ERR) == 0)), ('everything was visited', visited(c.post, 'children')),
                ('the table is handed on', st == gl(c.post, T[0]))]
    K['BSTast'] = Contract('BSTast', ast_req, ast_ens, lambda c: '*')
    return stage, K

def cex():
    S, NS, EP, TD = 'ste', 'node_ste', 'enum_prefix_ste', 'trav_data_names'
    TABS = [(NS, 'members of the node'), (EP, 'enum prefixes'), (TD, 'traversal data')]
    FL = ['seen_root_node', 'seen_start_phase']
    def inv(h):
        out = [('table of definitions', W(h, gl(h, S))), ('ghost', own(h, 0) == 0)]
        for (v, w) in TABS:
            out.append((w, W(h, gl(h, v))))
        vs = [S] + [v for (v, _) in TABS]
        out.append(('separate tables', z3.And([z3.Implies(z3.And(gl(h, a) != 0, gl(h, b) != 0), own(h, gl(h, a)) != own(h, gl(h, b))) for i, a in enumerate(vs) for b in vs[i + 1:]])))
        out.append(('flags', z3.And([z3.And(gl(h, q) >= 0, gl(h, q) <= 1) for q in FL])))
        return out
    MEMBER = {'attribute', 'child'}
    def rel(pre, post, nm, trv):
        out = [('definitions stay', z3.And(gl(post, S) == gl(pre, S), tables_kept(pre, post, gl(pre, S), gl(post, S)),
                       z3.ForAll([c_], B(post, gl(post, S), c_) == B(pre, gl(pre, S), c_), patterns=[KEYS(pre, gl(pre, S)), KEYS(post, gl(post, S))]))),
               ('enum prefixes stay', tables_kept(pre, post, gl(pre, EP), gl(post, EP))),
               ('seen stays seen', z3.And([z3.Implies(gl(pre, q) != 0, gl(post, q) != 0) for q in FL]))]
        if nm in MEMBER or trv in ('TRAViattributes', 'TRAVichildren'):
            out.append(('members stay', tables_kept(pre, post, gl(pre, NS), gl(post, NS))))
        if nm == 'itravdata':
            out.append(('traversal data stay', tables_kept(pre, post, gl(pre, TD), gl(post, TD))))
        if nm in ('inode', 'inodeset') and trv == 'TRAVnext' or nm in ('iactions', 'iphase', 'ast', 'ipass', 'itraversal', 'ienum', 'setoperation', 'setreference', 'setliteral'):
            out.append(('members are per node', z3.Implies(gl(pre, NS) == 0, gl(post, NS) == 0)))
        return out
    def before(h, nm, trv):
        if nm in ('inode', 'inodeset') and trv in ('TRAVnext', 'TRAVchildren'):
            return [('each node has members of its own', gl(h, NS) == 0)]
        if nm == 'itraversal':
            return [('each traversal has data of its own', gl(h, TD) == 0)]
        return []
    stage = dict(inv=inv, rel=rel, vars=[NS, EP, TD] + FL, before=before)
    def req(c):
        r = inv(c.pre) + [('ghost', z3.And(g0(c.pre, ERR) >= 0, g0(c.pre, SUB) >= 0)),
                          ('nothing visited', z3.ForAll([x], sel(c.pre, VIS, x) == 0, patterns=[sel(c.pre, VIS, x)])), ('node', c.args[0] > 0)]
        nm = c.contract.name[3:]
        if nm in ('inode', 'inodeset'):
            r.append(('each node has members of its own', gl(c.pre, NS) == 0))
        for gname in ('uid_reserved', 'preserved_enum_prefix'):
            for t, lit in reserved(c.eng, gname):
                r.append(('reserved', t(c.pre)))
        return r
    def ref(c, i): return B(c.pre, gl(c.pre, S), C(c.pre, i))
    def kind(c, v, *ks): return z3.Or([sel(c.pre, TY, v) == enum(c, 'NT_' + k) for k in ks])
    def wrong(c, i, *ks):
        v = ref(c, i)
        return z3.Or(v == 0, z3.Not(kind(c, v, *ks)))
    def is_reserved(c, i, gname):
        return z3.Or([CS(sel(c.pre, UPR, i)) == CS(lit) for (_, lit) in reserved(c.eng, gname)])
    def bad_uid(c, n):
        i = f(c, n)
        return z3.And(i != 0, is_reserved(c, i, 'uid_reserved'))
    def e(label, bad, visits, extra=None, cut=False):
        def en(c):
            b = bad(c) if bad else None
            out = inv(c.post) + rel(c.pre, c.post, c.contract.name[3:], None)
            if b is not None:
                out.append((label, (own_errors(c) > 0) == b))
            else:
                out.append(('no error of its own', own_errors(c) == 0))
            out += [('errors only grow', own_errors(c) >= 0), ('the tree is kept', c.ret == c.args[0])]
            for v in visits:
                out.append(('the check goes on at ' + v, z3.Or(visited(c.post, v), own_errors(c) > 0 if cut else z3.BoolVal(False))))
            return out + (extra(c) if extra else [])
        return en
    K = {}
    def add(n, ens, more=None):
        K['CEX' + n] = Contract('CEX' + n, (lambda c: req(c) + (more(c) if more else [])), ens, lambda c: '*')
        K['CEX' + n].templates = templates
    pos = lambda *ns: (lambda c: [('parts', z3.And([f(c, n) > 0 for n in ns] + [z3.Implies(f(c, ns[0][:-5] + '_type') == enum(c, 'AT_link_or_enum'), f(c, ns[0][:-5] + '_type_reference') > 0) for _ in [0] if ns[0] in ('attribute_name', 'itravdata_name')]))])
    add('iactions', e('an error exactly when the action is not declared or is not an action', lambda c: wrong(c, f(c, 'iactions_reference'), 'IPHASE', 'IPASS', 'ITRAVERSAL'), ['next']), pos('iactions_reference'))
    def phase_bad(c):
        return z3.Or(bad_uid(c, 'iphase_iprefix'), z3.And(f(c, 'iphase_is_start') != 0, gl(c.pre, FL[1]) != 0))
    add('iphase', e('an error exactly for a reserved uid or a second start phase', phase_bad, ['children'],
        lambda c: [('a start phase is remembered', z3.Implies(f(c, 'iphase_is_start') != 0, gl(c.post, FL[1]) != 0))]))
    add('itraversal', e('an error exactly for a reserved uid', lambda c: bad_uid(c, 'itraversal_iprefix'), ['children']))
    add('ipass', e('an error exactly for a reserved uid', lambda c: bad_uid(c, 'ipass_iprefix'), ['next']))
    def td_bad(c):
        i = f(c, 'itravdata_name')
        t = f(c, 'itravdata_type_reference')
        return z3.Or(B(c.pre, gl(c.pre, TD), C(c.pre, i)) != 0, z3.And(f(c, 'itravdata_type') == enum(c, 'AT_link_or_enum'), wrong(c, t, 'INODE', 'INODESET', 'IENUM')))
    add('itravdata', e('an error exactly for a second field of that name or a type that is not declared or is not a type', td_bad, ['next'],
        lambda c: [('the name is known afterwards', B(c.post, gl(c.post, TD), C(c.pre, f(c, 'itravdata_name'))) != 0)]), pos('itravdata_name'))
    def node_bad(c):
        return z3.Or(CS(sel(c.pre, LWR, f(c, 'inode_name'))) == CS(lit(c.eng, '"node"')), z3.And(f(c, 'inode_is_root') != 0, gl(c.pre, FL[0]) != 0))
    add('inode', e('an error exactly for the reserved name or a second root', node_bad, ['iattributes', 'ichildren', 'next'],
        lambda c: [('a root is remembered', z3.Implies(f(c, 'inode_is_root') != 0, gl(c.post, FL[0]) != 0)), ('members are per node', gl(c.post, NS) == 0)]), pos('inode_name'))
    add('inodeset', e(None, None, ['iattributes', 'expr', 'next'], lambda c: [('members are per node', gl(c.post, NS) == 0)]))
    def m_bound(c, n): return B(c.pre, gl(c.pre, NS), C(c.pre, f(c, n))) != 0
    def child_bad(c):
        return z3.Or(wrong(c, f(c, 'child_type_reference'), 'INODE', 'INODESET'), m_bound(c, 'child_name'))
    add('child', e('an error exactly for a second member of that name or a type that is not declared or not a node or nodeset', child_bad, ['next'],
        lambda c: [('the name is known afterwards', z3.Or(own_errors(c) > 0, B(c.post, gl(c.post, NS), C(c.pre, f(c, 'child_name'))) != 0))], cut=True), pos('child_name', 'child_type_reference'))
    def attr_bad(c):
        return z3.Or(m_bound(c, 'attribute_name'), z3.And(f(c, 'attribute_type') == enum(c, 'AT_link_or_enum'), wrong(c, f(c, 'attribute_type_reference'), 'INODE', 'INODESET', 'IENUM')))
    add('attribute', e('an error exactly for a second member of that name or a type that is not declared or not a type', attr_bad, ['next'],
        lambda c: [('the name is known afterwards', B(c.post, gl(c.post, NS), C(c.pre, f(c, 'attribute_name'))) != 0)]), pos('attribute_name'))
    add('setreference', e('an error exactly when it is not declared or not a nodeset', lambda c: wrong(c, f(c, 'setreference_reference'), 'INODESET'), []), pos('setreference_reference'))
    add('setliteral', e('an error exactly when it is not declared or not a node', lambda c: wrong(c, f(c, 'setliteral_reference'), 'INODE'), ['next']), pos('setliteral_reference'))
    add('setoperation', e(None, None, ['children']))
    def ast_req(c):
        st = f(c, 'ast_stable')
        h = c.pre
        return [('the table of definitions', z3.And(W(h, st), own(h, 0) == 0, f(c, 'ast_stable') >= 0)), ('a fresh run', z3.And([gl(h, v) == 0 for v in [NS, EP, TD] + FL])),
                ('ghost', z3.And(g0(h, ERR) >= 0, g0(h, SUB) >= 0)), ('nothing visited', z3.ForAll([x], sel(h, VIS, x) == 0, patterns=[sel(h, VIS, x)])), ('node', c.args[0] > 0)]
    def ast_ens(c):
        return [('returns only without errors', g0(c.post, ERR) == 0), ('everything was visited', visited(c.post, 'children')),
                ('there is a root node', gl(c.post, FL[0]) != 0), ('there is a start phase', gl(c.post, FL[1]) != 0), ('the tree is kept', c.ret == c.args[0])]
    K['CEXast'] = Contract('CEXast', ast_req, ast_ens, lambda c: '*')
    def enum_bad(c):
        i = f(c, 'ienum_iprefix')
        return z3.Or(is_reserved(c, i, 'preserved_enum_prefix'), B(c.pre, gl(c.pre, EP), C(c.pre, i)) != 0, DUP)
    def enum_req(c):
        h = c.pre
        v0 = f(c, 'ienum_vals')
        j, k = z3.Ints('j!v k!v')
        pre = [('prefix', f(c, 'ienum_iprefix') > 0),
               ('the values: a list VAT(0), .., VAT(VN-1)', z3.And(VN >= 0, VAT(0) == v0, VAT(VN) == 0, IDX(0) == VN,
                    z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VN), z3.And(VAT(j) > 0, IDX(VAT(j)) == j, sel(h, 'N.id_next', VAT(j)) == VAT(j + 1))), patterns=[VAT(j)]))),
               ('DUP: two values are the same', DUP == z3.Exists([j, k], z3.And(0 <= j, j < k, k < VN, C(h, VAT(j)) == C(h, VAT(k)))))]
        return pre
    add('ienum', e('an error exactly for a reserved prefix, a second enum with that prefix, or two values of the same name', enum_bad, ['next'],
        lambda c: [('the prefix is known afterwards', B(c.post, gl(c.post, EP), C(c.pre, f(c, 'ienum_iprefix'))) != 0)]), enum_req)
    def ienum_templates(L):
        out = templates(L)
        c, en = L.fctx, L.entry
        ptrs = [(k, nm) for (k, nm, ty) in L.vars if ty[0] == 'ptr' and k in L.modified]
        for (k, nm) in ptrs:
            out.append(('%s is the value at its place' % nm, lambda S, k=k: z3.And(0 <= IDX(S.v(k)), IDX(S.v(k)) <= VN, VAT(IDX(S.v(k))) == S.v(k), z3.Implies(S.v(k) == 0, IDX(S.v(k)) == VN))))
            for (k2, nm2) in ptrs:
                if k == k2: continue
                def known(S, k=k, k2=k2):
                    j = z3.Int('j!v')
                    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < IDX(S.v(k))), B(S.h, S.v(k2), C(c.pre, VAT(j))) != 0), patterns=[VAT(j)])
                def only(S, k=k, k2=k2):
                    v = B(S.h, S.v(k2), c_)
                    return z3.ForAll([c_], z3.Implies(v != 0, z3.And(0 <= IDX(v), IDX(v) < IDX(S.v(k)), VAT(IDX(v)) == v, C(c.pre, v) == c_)), patterns=[KEYS(S.h, S.v(k2))])
                def nodup(S, k=k):
                    j, i = z3.Ints('j!v i!v')
                    return z3.Implies(g0(S.h, ERR) == g0(en, ERR), z3.ForAll([j, i], z3.Implies(z3.And(0 <= j, j < i, i < IDX(S.v(k))), C(c.pre, VAT(j)) != C(c.pre, VAT(i))), patterns=[z3.MultiPattern(VAT(j), VAT(i))]))
                out.append(('values before %s are in %s' % (nm, nm2), known))
                out.append(('only values before %s are in %s' % (nm, nm2), only))
                out.append(('no error: values before %s differ' % nm, nodup))
        out.append(('an error: two values are the same', lambda S: z3.Implies(g0(S.h, ERR) > g0(en, ERR), DUP)))
        for (k2, nm2) in ptrs:
            out.append(('%s is a table' % nm2, lambda S, k2=k2: W(S.h, S.v(k2))))
        for v in [S, NS, EP, TD]:
            hd = gl(en, v)
            out.append(('%s stays a table' % v, lambda S_, hd=hd: W(S_.h, hd)))
            out.append(('%s stays the same table' % v, lambda S_, hd=hd: z3.Implies(hd != 0, own(S_.h, hd) == own(en, hd))))
            out.append(('%s keeps its contents' % v, lambda S_, hd=hd: z3.Implies(hd != 0, z3.ForAll([c_], KEYS(S_.h, hd) == KEYS(en, hd), patterns=[KEYS(S_.h, hd), KEYS(en, hd)]))))
            for (k2, nm2) in ptrs:
                out.append(('%s is not %s' % (nm2, v), lambda S_, hd=hd, k2=k2: z3.Implies(z3.And(hd != 0, S_.v(k2) != 0), own(S_.h, S_.v(k2)) != own(S_.h, hd))))
        out.append(('ghost', lambda S_: own(S_.h, 0) == 0))
        return out
    K['CEXienum'].templates = ienum_templates
    return stage, K

def cha():
    """check_attributes.c: the rules on attributes"""
    D = lambda h: sel(h, DATA, CUR)
    IN, NODE_ = 'data_cha.in_nodeset', 'data_cha.curr_node'
    in_set = lambda h: sel(h, IN, D(h)) != 0
    curr = lambda h: sel(h, NODE_, D(h))
    def inv(h): return [('ghost', own(h, 0) == 0)]
    def before(h, nm, trv):
        if nm == 'attribute':
            return []
        if trv == 'TRAViattributes':
            cx = h.eng.frames[0]['ctx']
            return [('the attributes are checked as those of this nodeset', in_set(h)) if nm == 'inodeset' else
                    ('the attributes are checked as those of this node', z3.And(z3.Not(in_set(h)), curr(h) == cx.args[0]))]
        return []
    stage = dict(inv=inv, rel=lambda pre, post, nm, trv: [], vars=[], before=before)
    def req(c):
        return inv(c.pre) + [('ghost', z3.And(g0(c.pre, ERR) >= 0, g0(c.pre, SUB) >= 0)), ('state of the traversal', z3.And(CUR > 0, D(c.pre) > 0)),
                             ('nothing visited', z3.ForAll([x], sel(c.pre, VIS, x) == 0, patterns=[sel(c.pre, VIS, x)])), ('node', c.args[0] > 0)]
    def e(label, bad, visits, extra=None):
        def en(c):
            out = [(label, (own_errors(c) > 0) == bad(c)) if bad else ('no error of its own', own_errors(c) == 0), ('errors only grow', own_errors(c) >= 0), ('the tree is kept', c.ret == c.args[0])]
            for v in visits:
                out.append(('the check goes on at ' + v, visited(c.post, v)))
            return out + (extra(c) if extra else [])
        return en
    K = {}
    def add(n, ens, more=None):
        K['CHA' + n] = Contract('CHA' + n, (lambda c: req(c) + (more(c) if more else [])), ens, lambda c: '*')
    add('inodeset', e('an error exactly for attributes of a nodeset with & or -', lambda c: z3.And(f(c, 'inodeset_illegal_setexpr_attr') != 0, f(c, 'inodeset_iattributes') != 0), ['iattributes', 'next']))
    add('inode', e(None, None, ['iattributes', 'next']))
    def bad(c):
        inh, syn, con = [f(c, 'attribute_' + n) != 0 for n in ('is_inherited', 'is_synthesized', 'in_constructor')]
        root = sel(c.pre, 'N.inode_is_root', curr(c.pre)) != 0
        return z3.Or(z3.And(inh, z3.Not(in_set(c.pre)), root),
                     z3.And(f(c, 'attribute_is_propagated') == 0, z3.Or(z3.And(con, z3.Or(in_set(c.pre), inh, syn)), z3.And(f(c, 'attribute_lifetimes') != 0, z3.Or(inh, syn)))))
    add('attribute', e('an error exactly for an inherited attribute of the root node, a constructor keyword of a nodeset, inherited or synthesized attribute, or a lifetime of an inherited or synthesized one', bad, ['next'],
        lambda c: [('the other attributes are checked as those of the same node', z3.And(in_set(c.post) == in_set(c.pre), curr(c.post) == curr(c.pre)))]),
        lambda c: [('name', f(c, 'attribute_name') > 0), ('current node', z3.Implies(z3.Not(in_set(c.pre)), curr(c.pre) > 0))])
    return stage, K

def strings(tu, name):
    """the literals of a static array of strings"""
    v = tu.globals.get(name)
    out = []
    def walk(n):
        if n.get('kind') == 'StringLiteral':
            out.append(n['value'])
        for k in n.get('inner', []):
            walk(k)
    if v:
        walk(v)
    return out

def lit(eng, s):
    if s not in eng.strlits:
        eng.strlits[s] = z3.Int('&str%d' % len(eng.strlits))
    return eng.strlits[s]

def reserved(eng, gname):
    tu = eng.tus[0]
    out = []
    for k, s in enumerate(strings(tu, gname)):
        l = lit(eng, s)
        key = 'mem:*int8'
        out.append((lambda h, k=k, l=l: z3.And(l > 0, sel(h, key, z3.Int('&' + gname) + k) == l), l))
    return out

def templates(L):
    eng = L.eng
    c = L.fctx
    pre = L.entry
    out = []
    ptrs = [(k, nm) for (k, nm, ty) in L.vars if ty[0] == 'ptr']
    ints = [(k, nm) for (k, nm, ty) in L.vars if ty[0] == 'int']
    for gname in ('uid_reserved', 'preserved_enum_prefix'):
        lits = [l for (_, l) in reserved(eng, gname)]
        for (k, nm) in ints:
            if k not in L.modified:
                continue
            out.append(('%s in range' % nm, lambda S, k=k, n=len(lits): z3.And(S.v(k) >= 0, S.v(k) <= n)))
            for (k2, nm2) in ptrs:
                def hits(S, k=k, k2=k2, lits=lits):
                    u = CS(sel(pre, UPR, S.v(k2)))
                    return (g0(S.h, ERR) > g0(pre, ERR)) == z3.Or([z3.And(j < S.v(k), u == CS(l)) for j, l in enumerate(lits)])
                out.append(('an error for a reserved word among the first %s' % nm, hits))
            def hits2(S, k=k, lits=lits):
                i = sel(pre, 'N.ienum_iprefix', c.args[0])
                u = CS(sel(pre, UPR, i))
                return (g0(S.h, ERR) > g0(pre, ERR)) == z3.Or([z3.And(j < S.v(k), u == CS(l)) for j, l in enumerate(lits)])
            out.append(('an error for a reserved prefix among the first %s' % nm, hits2))
    out.append(('errors only grow', lambda S: g0(S.h, ERR) >= g0(pre, ERR)))
    return out

def lookup_templates(L):
    c = L.fctx
    h = c.pre
    hd, key = c.args
    out = []
    for (k, nm, ty) in L.vars:
        if ty[0] == 'ptr' and k in L.modified:
            def inv(S, k=k):
                e = S.v(k)
                return z3.Or(e == 0, z3.And(hd != 0, own(h, e) == own(h, hd)))
            out.append((nm + ' is an entry', inv))
            def before(S, k=k):
                e = S.v(k)
                return z3.ForAll([y], z3.Implies(z3.And(hd != 0, own(h, y) == own(h, hd), z3.Or(e == 0, sel(h, POS, y) < sel(h, POS, e))), ck(h, y) != C(h, key)), patterns=[sel(h, OWN, y)])
            out.append(('no match before ' + nm, before))
    return out

# ---- the three operations on tables: unfolded where they are verified, folded where they are used
OTHER = z3.Int('other_table')
OTHER_END = z3.Int('other_end')
c2_ = z3.Int('c2!s')
def in_own_unit(c):
    return c.eng.frames[0].get('contract') is c.contract

def lookup_req(c):
    h, (hd, key) = c.pre, c.args
    r = [('key', key > 0), ('ghost', own(h, 0) == 0)]
    if in_own_unit(c):
        return r + [('table: ' + l, z3.Implies(hd != 0, f)) for (l, f) in wf(h, hd)]
    return r + [('a table', W(h, hd))]
def lookup_ens(c):
    h, (hd, key) = c.pre, c.args
    return [('the value of the first entry with that name, ignoring case, NULL if there is none', c.ret == (lv if in_own_unit(c) else B)(h, hd, C(h, key)))]

def grow(c, hd0, hd1, key, val, first_wins, end=None):
    """the table is extended by one entry; all other tables keep their contents"""
    pre, post = c.pre, c.post
    L0, L1 = own(pre, hd0), own(post, hd1)
    k = C(pre, key)
    own_unit = in_own_unit(c)
    F = lv if own_unit else B
    new = lambda old, c: z3.If(z3.And(c == k, old == 0) if first_wins else c == k, val, old)
    out = [('not empty', z3.And(hd1 != 0, end != 0) if end is not None else hd1 != 0), ('same table', z3.Implies(hd0 != 0, L1 == L0))]
    if own_unit:
        out += [('well formed after: ' + l, f) for (l, f) in wf(post, hd1)]
        if end is not None:
            out += [('after: ' + l, f) for (l, f) in wf_end(post, hd1, end)]
        out += [('exactly the new name is bound', lv(post, hd1, c2_) == new(lv(pre, hd0, c2_), c2_)),
                ('another table: identity', z3.And(own(post, OTHER) == own(pre, OTHER), own(post, OTHER) != L1))]
        out += [('another table stays well formed: ' + l, f) for (l, f) in wf(post, OTHER)]
        out += [('another table keeps its end: ' + l, z3.Implies(OTHER_END != 0, f)) for (l, f) in wf_end(post, OTHER, OTHER_END)]
        out += [('another table keeps its contents', lv(post, OTHER, c2_) == lv(pre, OTHER, c2_))]
    else:
        out += [('well formed after', z3.And(hd1 > 0, WFO(*arrs(post), hd1))),
                ('exactly the new name is bound', z3.ForAll([c_], B(post, hd1, c_) == new(B(pre, hd0, c_), c_), patterns=[KEYS(pre, hd0), KEYS(post, hd1)]))]
        if end is not None:
            out.append(('end', ENDO(*arrs(post), hd1, end)))
        o, e_ = z3.Ints('o!s e!s')
        oth = z3.And(WFO(*arrs(pre), o), o > 0, z3.Or(hd0 == 0, own(pre, o) != L0))
        out += [('other tables', z3.ForAll([o], z3.Implies(oth, z3.And(WFO(*arrs(post), o), own(post, o) == own(pre, o), own(post, o) != L1)), patterns=[WFO(*arrs(pre), o)])),
                ('contents of other tables', z3.ForAll([o, c_], z3.Implies(oth, KEYS(post, o) == KEYS(pre, o)), patterns=[KEYS(pre, o), KEYS(post, o)])),
                ('ends of other tables', z3.ForAll([o, e_], z3.Implies(z3.And(oth, ENDO(*arrs(pre), o, e_)), ENDO(*arrs(post), o, e_)), patterns=[ENDO(*arrs(pre), o, e_)])),
                ('no table', own(post, 0) == 0)]
    return out
def grow_req(c, hd0, val, end=None):
    h = c.pre
    r = [('value', val != 0), ('ghost', own(h, 0) == 0)]
    if end is not None:
        r.append(('empty or not', (hd0 == 0) == (end == 0)))
    if in_own_unit(c):
        r += [('table: ' + l, z3.Implies(hd0 != 0, f)) for (l, f) in wf(h, hd0)]
        if end is not None:
            r += [('table: ' + l, z3.Implies(hd0 != 0, f)) for (l, f) in wf_end(h, hd0, end)]
        r += [('another table: ' + l, f) for (l, f) in wf(h, OTHER)]
        r += [('another table: ' + l, z3.Implies(OTHER_END != 0, f)) for (l, f) in wf_end(h, OTHER, OTHER_END)]
        r += [('another table', z3.And(OTHER > 0, z3.Implies(hd0 != 0, own(h, OTHER) != own(h, hd0))))]
        return r
    r += [('a table', W(h, hd0))]
    if end is not None:
        r += [('its end', z3.Implies(hd0 != 0, ENDO(*arrs(h), hd0, end)))]
    return r
def table_mods(c, *g):
    m = {k: None for k in TBL}
    m.update({'g:' + q: None for q in g})
    return m

LOOKUP = Contract('STlookup', lookup_req, lookup_ens, lambda c: {})
LOOKUP.templates = lookup_templates
ADD = Contract('STadd', lambda c: grow_req(c, c.args[0], c.args[2]) + [('key', c.args[1] > 0)], lambda c: grow(c, c.args[0], c.ret, c.args[1], c.args[2], False), table_mods)
ADDTO = Contract('addToST', lambda c: grow_req(c, gl(c.pre, 'first_ste'), c.args[1], gl(c.pre, 'last_ste')) + [('key', c.args[0] > 0)],
                 lambda c: grow(c, gl(c.pre, 'first_ste'), gl(c.post, 'first_ste'), c.args[0], c.args[1], True, gl(c.post, 'last_ste')), lambda c: table_mods(c, 'first_ste', 'last_ste'))

CUR, DATA = z3.Int('current_traversal'), 'TRAV_DATA.*'
BASE = {'TRAVgetCurrent': lambda eng, st, args, rt, hint, n: [(st, CUR)], 'CCNerrorPhase': b_nop(), 'CCNerrorAction': b_nop(), 'MEMmalloc': b_malloc, 'malloc': b_malloc, 'MEMfree': b_nop(), 'CTI': b_cti, 'CTIobj': b_cti, 'CTIabortOnError': b_abort_on_error, 'STReq': b_streq, 'STRcpy': b_strcpy,
        'id_to_info': b_nop(), 'CCNfree': b_nop(1), 'TRAVstart': b_nop(1), 'HTlookup': b_nop(1)}

NOFRAME = [ERR, SUB, 'ghost:stopped'] + TBL[:3] + ['ccn_node.' + q for q in ('nodetype', 'children', 'filename', 'num_children', 'begin_line', 'end_line', 'begin_col', 'end_col')]
def table_unit(src, K, functions):
    return runner.Unit(src + ' (tables)', list(dict.fromkeys([src, 'cocogen/frontend/symboltable.c', 'cocogen/ccngen/ast.c'])), lambda: K, functions=functions,
                       engine=dict(axioms=AXIOMS, builtins=Builtins(BASE, None), opts=dict(live=False, safety=False, on_store=on_store, fresh_frame=False, noframe=['*'])))
def need(tus, fns, glob):
    from ccv.front import Unsupported
    for f in fns:
        if not any(f in tu.funcs for tu in tus):
            raise Unsupported('%s is not there any more' % f)
    for g in glob:
        if g not in tus[0].globals:
            raise Unsupported('the static %s is not there any more' % g)
def unit(src, mk, ops, glob):
    stage, K = mk()
    for o in ops:
        K[o.name] = o
    fns = [n for n in K if n[:3] in ('BST', 'CEX', 'CHA')]
    def cs(tus=None):
        if tus:
            need(tus, [o.name for o in ops], glob)
        return K
    return runner.Unit(src, [src, 'cocogen/frontend/symboltable.c', 'cocogen/ccngen/ast.c'], cs, functions=fns,
                       engine=dict(axioms=AXIOMS, builtins=Builtins(BASE, trav(stage)), opts=dict(live=False, safety=False)))

def units(scratch=None):
    return [table_unit('cocogen/frontend/symboltable.c', {'STlookup': LOOKUP, 'STadd': ADD}, ['STlookup', 'STadd']),
            table_unit('cocogen/frontend/buildsymboltable.c', {'addToST': ADDTO}, ['addToST']),
            unit('cocogen/frontend/buildsymboltable.c', bst, [LOOKUP, ADD, ADDTO], ['first_ste', 'last_ste', 'pass_ste']),
            unit('cocogen/frontend/check_existance.c', cex, [LOOKUP, ADD], ['ste', 'node_ste', 'enum_prefix_ste', 'trav_data_names', 'seen_root_node', 'seen_start_phase']),
            unit('cocogen/frontend/check_attributes.c', cha, [], [])]
