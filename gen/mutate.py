"""specifications with one error each (and harmless look-alikes), for the accept / reject decision"""
import random
from . import spec as S
O = S.O

def vary(rng, n):
    return rng.choice([n, n, n.lower(), n.upper(), n.swapcase()])
def fresh(rng):
    return 'qq%d' % rng.randint(1, 10**6)
def lt(kind, b=None, e=None):
    return O(kind=kind, begin=b, end=e, bare=not b and not e, open_b='(', open_e=')')

def defs(sp):
    """all names bound in the one table of definitions: (name, kind)"""
    o = [(n.name, 'node') for n in sp.nodes] + [(n.name, 'nodeset') for n in sp.nodesets] + [(n.name, 'enum') for n in sp.enums]
    for k, l in (('phase', sp.phases), ('pass', sp.passes), ('trav', sp.travs)):
        for a in l:
            o.append((a.name, k))
            if a.uid:
                o.append((a.uid, k + ' uid'))
    return o

def add_def(rng, sp, kind, name):
    if kind == 'node':
        sp.nodes.insert(rng.randint(0, len(sp.nodes)), O(name=name, root=False, children=[], attrs=[O(name='zq', type='int', ctor=False, lts=[])], lts=[], eqs=[]))
    elif kind == 'nodeset':
        sp.nodesets.insert(rng.randint(0, len(sp.nodesets)), O(name=name, expr=('lit', [rng.choice(sp.nodes).name]), attrs=[]))
    elif kind == 'enum':
        sp.enums.insert(rng.randint(0, len(sp.enums)), O(name=name, prefix='ZQ', values=['one', 'two']))
    elif kind == 'pass':
        sp.passes.insert(rng.randint(0, len(sp.passes)), O(name=name, uid=None, func=None))
    elif kind == 'trav':
        sp.travs.insert(rng.randint(0, len(sp.travs)), O(name=name, uid='ZQU', info=None, nodes=None, data=[]))
    elif kind == 'phase':
        sp.phases.insert(rng.randint(0, len(sp.phases)), O(name=name, uid=None, gate=None, cycle=rng.random() < .5, start=False, actions=[rng.choice(sp.passes + sp.travs).name], info=None))
KINDS = ['node', 'nodeset', 'enum', 'pass', 'trav', 'phase']

def types_slots(sp):
    """everything with a type: ('child'|'attr'|'data', object)"""
    return [('child', c) for n in sp.nodes for c in n.children] + [('attr', a) for n in sp.nodes for a in n.attrs] + [('data', d) for t in sp.travs for d in t.data]
def lits(e):
    if e[0] == 'lit': return [e]
    if e[0] == 'ref': return []
    return lits(e[1]) + lits(e[2])
def exprs(sp):
    return [(s, 'expr') for s in sp.nodesets] + [(t, 'nodes') for t in sp.travs if t.nodes is not None]

def clash_def(rng, sp):
    n, k = rng.choice(defs(sp)); kind = rng.choice(KINDS)
    add_def(rng, sp, kind, vary(rng, n))
    return 'a %s with the name of the %s %s' % (kind, k, n)
def clash_uid(rng, sp):
    l = [('phase', a) for a in sp.phases] + [('pass', a) for a in sp.passes] + [('trav', a) for a in sp.travs]
    k, a = rng.choice(l)
    n, kk = rng.choice([x for x in defs(sp) if x[0] != a.name and x[0] != a.uid])
    a.uid = vary(rng, n)
    return 'the uid of %s is the name of the %s %s' % (a.name, kk, n)
def clash_member(rng, sp):
    l = [n for n in sp.nodes if n.children or n.attrs]
    if not l: return None
    n = rng.choice(l)
    m = rng.choice(n.children + n.attrs)
    if rng.random() < .5:
        n.children.insert(rng.randint(0, len(n.children)), O(name=vary(rng, m.name), type=rng.choice(sp.nodes).name, ctor=rng.random() < .5, lts=[]))
    else:
        n.attrs.insert(rng.randint(0, len(n.attrs)), O(name=vary(rng, m.name), type=rng.choice(S.PRIM), ctor=rng.random() < .5, lts=[]))
    return 'two members %s of node %s' % (m.name, n.name)
def clash_data(rng, sp):
    l = [t for t in sp.travs if t.data]
    if not l: return None
    t = rng.choice(l); d = rng.choice(t.data)
    t.data.insert(rng.randint(0, len(t.data)), O(name=vary(rng, d.name), type=rng.choice(S.PRIM)))
    return 'two data %s of traversal %s' % (d.name, t.name)
def clash_value(rng, sp):
    e = rng.choice(sp.enums); v = rng.choice(e.values)
    e.values = list(e.values)
    e.values.insert(rng.randint(0, len(e.values)), vary(rng, v))
    return 'two values %s of enum %s' % (v, e.name)
def clash_prefix(rng, sp):
    e = rng.choice(sp.enums)
    sp.enums.insert(rng.randint(0, len(sp.enums)), O(name=fresh(rng), prefix=vary(rng, e.prefix), values=['one', 'zwei']))
    return 'two enums with prefix %s' % e.prefix
def clash_func(rng, sp):
    if not sp.passes: return None
    p = rng.choice(sp.passes)
    if not p.func: p.func = 'fn_x'
    sp.passes.insert(rng.randint(0, len(sp.passes)), O(name=fresh(rng), uid=None, func=p.func))
    return 'two passes with function %s' % p.func
def undecl_type(rng, sp):
    l = types_slots(sp)
    if not l: return None
    k, o = rng.choice(l); o.type = fresh(rng); o.lts = []
    return 'the type of %s %s is not declared' % (k, o.name)
def kind_type(rng, sp):
    l = types_slots(sp)
    if not l: return None
    k, o = rng.choice(l)
    bad = [a for a in sp.phases + sp.passes + sp.travs]
    ns = [a.name for a in bad] + [a.uid for a in bad if a.uid] + ([e.name for e in sp.enums] if k == 'child' else [])
    o.type = rng.choice(ns); o.lts = []
    return 'the type of %s %s is %s' % (k, o.name, o.type)
def _member(rng, sp, name, what):
    l = [x for x in exprs(sp) if lits(getattr(*x))]
    if not l: return None
    o, f = rng.choice(l)
    x = rng.choice(lits(getattr(o, f)))
    x[1].insert(rng.randint(0, len(x[1])), name)
    return 'a member of the set of %s is %s (%s)' % (o.name, name, what)
def _redo_lits(sp):
    def cp(e):
        return ('lit', list(e[1])) if e[0] == 'lit' else e if e[0] == 'ref' else (e[0], cp(e[1]), cp(e[2]))
    for o, f in exprs(sp):
        setattr(o, f, cp(getattr(o, f)))
def undecl_member(rng, sp):
    return _member(rng, sp, fresh(rng), 'not declared')
def kind_member(rng, sp):
    a = rng.choice(sp.phases + sp.passes + sp.travs + sp.enums + sp.nodesets)
    return _member(rng, sp, a.name, 'not a node')
def _setref(rng, sp, name, what):
    l = exprs(sp)
    if not l: return None
    o, f = rng.choice(l)
    e = getattr(o, f)
    r = ('ref', name)
    setattr(o, f, rng.choice([r, (rng.choice('|&-'), e, r), ('|', r, e)]))
    return 'the set of %s refers to %s (%s)' % (o.name, name, what)
def undecl_set(rng, sp):
    return _setref(rng, sp, fresh(rng), 'not declared')
def kind_set(rng, sp):
    return _setref(rng, sp, rng.choice(sp.phases + sp.passes + sp.travs + sp.enums + sp.nodes).name, 'not a set')
def _action(rng, sp, name, what):
    p = rng.choice(sp.phases)
    p.actions.insert(rng.randint(0, len(p.actions)), name)
    return 'phase %s uses the action %s (%s)' % (p.name, name, what)
def undecl_action(rng, sp):
    return _action(rng, sp, fresh(rng), 'not declared')
def kind_action(rng, sp):
    return _action(rng, sp, rng.choice(sp.nodes + sp.nodesets + sp.enums).name, 'not an action')
def _target(rng, sp, t, what):
    n = rng.choice(sp.nodes)
    l = [(n, 'a node')] + [(c, 'child') for c in n.children] + [(a, 'attribute') for a in n.attrs if a.type == 'string' or sp.types_of(a.type)]
    if not n.children and not n.attrs: return None
    o, w = rng.choice(l)
    k = 'disallowed' if o is n else rng.choice(['mandatory', 'optional', 'disallowed', 'allowed'])
    inc = rng.random() < .5
    b, e = ((t, inc), None) if rng.random() < .5 else (None, (t, inc))
    o.lts = list(o.lts); o.lts.insert(rng.randint(0, len(o.lts)), lt(k, b, e))
    return 'a lifetime of %s %s names %s (%s)' % (w, o.name, '.'.join(t), what)
def undecl_target(rng, sp):
    num = S.number(sp)[1:]
    if rng.random() < .6:
        return _target(rng, sp, [fresh(rng)], 'not declared')
    path = [x.name for x in rng.choice(num)[3][1:]]
    path[rng.randrange(len(path))] = fresh(rng)
    return _target(rng, sp, path, 'not declared')
def kind_target(rng, sp):
    return _target(rng, sp, [rng.choice(sp.nodes + sp.nodesets + sp.enums).name], 'not an action')
def misplaced_target(rng, sp):
    """a dotted target that names existing actions, the last one not inside the others"""
    for _ in range(30):
        p = rng.choice(sp.phases); a = rng.choice(sp.phases + sp.passes + sp.travs)
        if not p.start and S.resolve(sp, [p.name]) and S.resolve(sp, [p.name, a.name]) is None and not getattr(a, 'start', False):
            num = S.number(sp)
            if any(q[2] is p and any(num[k][2] is a for k in S._within(num, i)) for i, q in enumerate(num)):
                continue
            return _target(rng, sp, [p.name, a.name], 'not in that phase')
    return None
def no_root(rng, sp):
    for n in sp.nodes: n.root = False
    return 'no root node'
def two_roots(rng, sp):
    l = [n for n in sp.nodes if not n.root]
    if not l: return None
    n = rng.choice(l); n.root = True
    return 'a second root node %s' % n.name
def no_start(rng, sp):
    for p in sp.phases: p.start = False
    return 'no start phase'
def two_starts(rng, sp):
    l = [p for p in sp.phases if not p.start]
    if l:
        p = rng.choice(l)
    else:
        add_def(rng, sp, 'phase', fresh(rng)); p = [p for p in sp.phases if not p.start][0]
    p.start = True; p.cycle = False
    return 'a second start phase %s' % p.name
def _typ(rng, sp, not_=None):
    return rng.choice([t for t in ['int', 'bool', 'string', 'double', rng.choice(sp.nodes).name, rng.choice(sp.nodes).name] + [e.name for e in sp.enums] + [s.name for s in sp.nodesets] if t != not_])
def _nodeset_attr(rng, sp, n, name, ty, inner=False):
    """a node set with n as a member (possibly through another set) and an attribute"""
    e = ('lit', [x.name for x in sp.nodes if x is n or rng.random() < .2 and name.lower() not in [y.name.lower() for y in x.children + x.attrs]])
    at = [O(name=name, type=ty, ctor=False, lts=[])]
    if rng.random() < .5:
        at.insert(rng.randint(0, 1), O(name=fresh(rng) + 'o', type='int', ctor=False, lts=[]))
    if rng.random() < .5:
        refs = []
        for _ in range(rng.randint(1, 3)):
            s = O(name=fresh(rng) + 'i', expr=e if not refs or rng.random() < .5 else ('ref', rng.choice(refs)[1]), attrs=[])
            sp.nodesets.insert(rng.randint(0, len(sp.nodesets)), s)
            refs.append(('ref', s.name))
        if rng.random() < .4: refs.append(('lit', [n.name]))
        if rng.random() < .4: refs.append(rng.choice(refs))
        rng.shuffle(refs)
        e = refs[0]
        for r in refs[1:]: e = ('|', e, r)
        if inner: rng.choice([s for s in sp.nodesets if ('ref', s.name) in refs]).attrs.append(O(name=vary(rng, name), type=ty, ctor=False, lts=[]))
    elif inner: return False
    sp.nodesets.insert(rng.randint(0, len(sp.nodesets)), O(name=fresh(rng) + 's', expr=e, attrs=at))
    return True
def clash_set_member(rng, sp):
    l = [n for n in sp.nodes if n.children or n.attrs]
    if not l: return None
    n = rng.choice(l); m = rng.choice(n.children + n.attrs)
    if m in n.attrs: m.ctor = False                              # with the constructor keyword it may repeat the attribute
    _nodeset_attr(rng, sp, n, vary(rng, m.name), m.type if m in n.attrs and rng.random() < .5 else 'int')
    return 'an attribute of a node set is called %s like a member of its member %s' % (m.name, n.name)
def clash_set_type(rng, sp):
    n = rng.choice(sp.nodes); a = fresh(rng); t = _typ(rng, sp)
    n.attrs.insert(rng.randint(0, len(n.attrs)), O(name=a, type=t, ctor=True, lts=[]))
    u = _typ(rng, sp, t)
    _nodeset_attr(rng, sp, n, a, u)
    return 'attribute %s has type %s in node %s and type %s in its node set' % (a, t, n.name, u)
def clash_sets(rng, sp):
    n = rng.choice(sp.nodes); a = fresh(rng); t = _typ(rng, sp)
    _nodeset_attr(rng, sp, n, a, t); _nodeset_attr(rng, sp, n, vary(rng, a), rng.choice([t, _typ(rng, sp)]))
    return 'two node sets of %s have an attribute %s' % (n.name, a)
def clash_set_attrs(rng, sp):
    n = rng.choice(sp.nodes); a = fresh(rng)
    _nodeset_attr(rng, sp, n, a, _typ(rng, sp))
    s = [s for s in sp.nodesets if a in [x.name for x in s.attrs]][0]
    s.attrs.insert(rng.randint(0, len(s.attrs)), O(name=vary(rng, a), type=rng.choice([s.attrs[0].type, _typ(rng, sp)]), ctor=False, lts=[]))
    return 'a node set with two attributes %s' % a
def type_set_attr(rng, sp):
    n = rng.choice(sp.nodes)
    bad = sp.phases + sp.passes + sp.travs
    t = rng.choice([fresh(rng)] + [a.name for a in bad] + [a.uid for a in bad if a.uid])
    _nodeset_attr(rng, sp, n, fresh(rng), t)
    return 'an attribute of a node set has type %s (not a type)' % t
def clash_inner_set(rng, sp):
    n = rng.choice(sp.nodes); a = fresh(rng)
    if not _nodeset_attr(rng, sp, n, a, _typ(rng, sp), True): return None
    return 'a node set and a node set in it have an attribute %s' % a
def _set_with(rng, sp, a):
    return [s for s in sp.nodesets if a in [x.name for x in s.attrs]][0]
def ctor_set_attr(rng, sp):
    n = rng.choice(sp.nodes); a = fresh(rng)
    _nodeset_attr(rng, sp, n, a, _typ(rng, sp))
    rng.choice(_set_with(rng, sp, a).attrs).ctor = True
    return 'an attribute of a node set with the constructor keyword'
def ops_set_attr(rng, sp):
    n = rng.choice(sp.nodes); a = fresh(rng)
    _nodeset_attr(rng, sp, n, a, _typ(rng, sp))
    s = _set_with(rng, sp, a)
    m = [x.name for x in sp.nodes if a not in [y.name for y in x.attrs]]
    e = rng.choice([('&', s.expr, s.expr), ('&', s.expr, ('lit', m)), ('-', s.expr, ('lit', rng.sample(m, 1))), ('&', ('lit', [n.name]), s.expr)])
    s.expr = rng.choice([e, ('|', e, s.expr), ('|', s.expr, e)])
    return 'a node set with attributes uses & or -'
def _grammar_attr(rng, sp, n, kind, **kw):
    a = O(name=fresh(rng), type=kw.get('type', 'int'), ctor=kw.get('ctor', False), lts=kw.get('lts', []), ag=kind)
    n.attrs.insert(rng.randint(0, len(n.attrs)), a)
    if kind == 'synthesized':
        n.eqs = list(getattr(n, 'eqs', None) or []) + [('this.' + a.name, [])]
    return a
def ctor_synthesized(rng, sp):
    _grammar_attr(rng, sp, rng.choice(sp.nodes), 'synthesized', ctor=True)
    return 'a synthesized attribute with the constructor keyword'
def lifetime_synthesized(rng, sp):
    _grammar_attr(rng, sp, rng.choice(sp.nodes), 'synthesized', type='string', lts=[lt(rng.choice(['mandatory', 'optional', 'disallowed', 'allowed']))])
    return 'a synthesized attribute with a lifetime'
def root_inherited(rng, sp):
    root = [n for n in sp.nodes if n.root][0]
    for n in sp.nodes:
        n.children = [c for c in n.children if root.name.lower() not in [t.lower() for t in sp.types_of(c.type)]]
    _grammar_attr(rng, sp, root, 'inherited')
    if rng.random() < .5: _grammar_attr(rng, sp, root, 'synthesized')
    return 'the root node has an inherited attribute'
BAD = [ctor_set_attr, ops_set_attr, ctor_synthesized, lifetime_synthesized, root_inherited, clash_inner_set, clash_set_attrs, type_set_attr, clash_set_member, clash_set_type, clash_sets, clash_def, clash_uid, clash_member, clash_data, clash_value, clash_prefix, clash_func, undecl_type, kind_type, undecl_member, kind_member, undecl_set,
       kind_set, undecl_action, kind_action, undecl_target, kind_target, misplaced_target, no_root, two_roots, no_start, two_starts]

# ---- look-alikes that are no errors
def ok_member_names(rng, sp):
    l = [n for n in sp.nodes if n.children or n.attrs]
    if len(sp.nodes) < 2 or not l: return None
    n = rng.choice(l); m = rng.choice(n.children + n.attrs)
    o = rng.choice([x for x in sp.nodes if x is not n])
    if m.name.lower() in [x.name.lower() for x in o.children + o.attrs]: return None
    o.children.append(O(name=m.name, type=rng.choice(sp.nodes).name, ctor=True, lts=[]))
    return 'nodes %s and %s have a member %s' % (n.name, o.name, m.name)
def ok_member_like_def(rng, sp):
    n = rng.choice(sp.nodes); d = rng.choice(defs(sp))[0]
    if d.lower() in [x.name.lower() for x in n.children + n.attrs]: return None
    n.attrs.append(O(name=d, type='int', ctor=True, lts=[]))
    return 'an attribute of %s is named like the definition %s' % (n.name, d)
def ok_data_names(rng, sp):
    l = [t for t in sp.travs if t.data]
    if not l or len(sp.travs) < 2: return None
    t = rng.choice(l); o = rng.choice([x for x in sp.travs if x is not t]); d = rng.choice(t.data)
    if d.name.lower() in [x.name.lower() for x in o.data]: return None
    o.data.append(O(name=d.name, type='int'))
    return 'traversals %s and %s have data %s' % (t.name, o.name, d.name)
def ok_values(rng, sp):
    e = rng.choice(sp.enums)
    sp.enums.append(O(name=fresh(rng), prefix='ZQ', values=list(e.values) + [rng.choice(sp.nodes).name]))
    return 'two enums with the same values'
def ok_unused(rng, sp):
    k = rng.choice(KINDS); add_def(rng, sp, k, fresh(rng))
    return 'an unused %s' % k
def ok_nothing(rng, sp):
    return 'as generated'
def ok_set_attr(rng, sp):
    n = rng.choice(sp.nodes); a = fresh(rng)
    _nodeset_attr(rng, sp, n, a, _typ(rng, sp))
    return 'a node set with an attribute'
def ok_set_repeat(rng, sp):
    n = rng.choice(sp.nodes); a = fresh(rng); t = _typ(rng, sp)
    n.attrs.insert(rng.randint(0, len(n.attrs)), O(name=a, type=t, ctor=True, lts=[]))
    _nodeset_attr(rng, sp, n, a, t)
    return 'node %s repeats the attribute %s of its node set with the constructor keyword' % (n.name, a)
def ok_sets(rng, sp):
    if len(sp.nodes) < 2: return None
    n, m = rng.sample(sp.nodes, 2); a = fresh(rng)
    for k in (n, m):
        sp.nodesets.append(O(name=fresh(rng) + 's', expr=('lit', [k.name]), attrs=[O(name=a, type=_typ(rng, sp), ctor=False, lts=[])]))
    return 'two disjoint node sets with an attribute %s' % a
def ok_synthesized(rng, sp):
    for _ in range(rng.randint(1, 2)):
        _grammar_attr(rng, sp, rng.choice(sp.nodes), 'synthesized', type=rng.choice(['int', 'string']))
    return 'synthesized attributes with equations'
OK = [ok_synthesized, ok_set_attr, ok_set_repeat, ok_sets, ok_member_names, ok_member_like_def, ok_data_names, ok_values, ok_unused, ok_nothing]

def case(seed):
    """(specification, what is wrong or harmless, must be accepted)"""
    rng = random.Random(seed * 31 + 7)
    for k in range(100):
        good = rng.random() < .3
        f = rng.choice(OK) if good else BAD[(seed + k) % len(BAD)]
        sp = S.rand_spec(seed + 1000003 * k, lifetimes=rng.random() < .5)
        _redo_lits(sp)
        d = f(rng, sp)
        if d is not None:
            sp.seed = seed
            return sp, f.__name__, d, good
    raise RuntimeError('no case')
