"""Specifications (.ccn), their printed form, a seeded generator, and the documented meaning of
set expressions, lifetimes and action numbers - written from the documentation, not from cocogen."""
import random, threading

PRIM = ['bool', 'string', 'int', 'float', 'double', 'uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64']
CTYPE = {'bool': 'bool', 'string': 'char *', 'int': 'int', 'float': 'float', 'double': 'double', 'uint8': 'uint8_t', 'uint16': 'uint16_t',
         'uint32': 'uint32_t', 'uint64': 'uint64_t', 'int8': 'int8_t', 'int16': 'int16_t', 'int32': 'int32_t', 'int64': 'int64_t'}

class O:
    def __init__(self, **kw):
        self.__dict__.update(kw)
    def __repr__(self):
        return '%s' % (self.__dict__,)

# set expressions: ('lit', [names]) | ('ref', name) | (op, a, b)
def set_eval(sp, e):
    if e[0] == 'lit':
        return frozenset(n.lower() for n in e[1])
    if e[0] == 'ref':
        ns = [s for s in sp.nodesets if s.name.lower() == e[1].lower()][0]
        return set_eval(sp, ns.expr)
    a, b = set_eval(sp, e[1]), set_eval(sp, e[2])
    return a | b if e[0] == '|' else a & b if e[0] == '&' else a - b

def set_print(e, rng=None, case=None):
    c = case or (lambda x: x)
    if e[0] == 'lit':
        return '{' + ', '.join(c(n) for n in e[1]) + '}'
    if e[0] == 'ref':
        return c(e[1])
    def side(x, right):
        if x[0] in '|&-':
            # one left-associative precedence level: only a left operand may stay without parentheses
            if not right and rng and rng.random() < .5:
                return set_print(x, rng, case)
            return '(' + set_print(x, rng, case) + ')'
        return set_print(x, rng, case)
    return side(e[1], False) + ' ' + e[0] + ' ' + side(e[2], True)

def rand_expr(rng, names, sets, depth):
    r = rng.random()
    if depth == 0 or r < .35:
        if sets and rng.random() < .5:
            return ('ref', rng.choice(sets))
        return ('lit', rng.sample(names, rng.randint(1, min(4, len(names)))))
    return (rng.choice('||&-'), rand_expr(rng, names, sets, depth - 1), rand_expr(rng, names, sets, depth - 1))

NODE_POOL = ['alpha', 'Beta', 'gamma', 'Delta', 'eps', 'Zeta', 'eta', 'THETA', 'iota', 'Kap_pa', 'lam', 'Mu', 'nu', 'xi_1', 'Omi2', 'pi',
             'expression_statement_left', 'expression_statement_right', 'Expression_Statement', 'alpha2', 'alphabet', 'ETA_beta', 'x']
CHILD_POOL = ['left', 'Right', 'next', 'body', 'cond', 'List', 'expr', 'els', 'next_statement_in_list', 'next_statement_in_set', 'a', 'Init', 'step', 'nxt']
ATTR_POOL = ['val', 'Name', 'kind', 'lnk', 'flag', 'num', 'siz', 'Tag', 'off', 'str2', 'dd', 'value_of_attribute_one', 'value_of_attribute_two', 'b', 'Row']
SET_POOL = ['Exprs', 'stmts', 'sAll', 'Lits', 'setx', 'Set_y']
PHASE_POOL = ['front', 'Middle', 'back', 'opt', 'Final', 'phx', 'phy']
ACT_POOL = ['scan', 'Check1', 'infer', 'fold', 'Emit', 'lower', 'inl', 'dce', 'cse', 'ssa', 'Regs', 'asmb', 'peep', 'sched']
UIDS = ['TAA', 'TBb', 'tcc', 'TDD', 'TEE', 'TFF', 'TGG', 'THH']

class Spec(O):
    def node(self, name):
        return [n for n in self.nodes if n.name.lower() == name.lower()][0]
    def types_of(self, name):
        """node types a child or attribute type name stands for"""
        for n in self.nodes:
            if n.name.lower() == name.lower():
                return frozenset([n.name.lower()])
        for s in self.nodesets:
            if s.name.lower() == name.lower():
                return set_eval(self, s.expr)
        return None
    def handled(self, t):
        return frozenset(n.name.lower() for n in self.nodes) if t.nodes is None else set_eval(self, t.nodes)

# ------------------------------------------------------------------ action numbers and lifetimes
def find_action(sp, name):
    l = name.lower()
    for kind in ('phases', 'passes', 'travs'):
        for a in getattr(sp, kind):
            if a.name.lower() == l or (a.uid and a.uid.lower() == l):
                return kind, a
    return None, None

def number(sp):
    """preorder: start phase 1; list of (id, kind, object, path of names, end id) where end covers all it contains"""
    out = []
    cnt = [0]
    def go(name, path):
        kind, a = find_action(sp, name)
        cnt[0] += 1
        me = [cnt[0], kind, a, path + [a], None]
        out.append(me)
        if kind == 'phases':
            for x in a.actions:
                go(x, path + [a])
        me[4] = cnt[0] + 1
    go([p for p in sp.phases if p.start][0].name, [])
    return out

def named(a, name):
    return a.name.lower() == name.lower() or (a.uid and a.uid.lower() == name.lower())

def _within(num, i):
    """indices of the entries contained in entry i (preorder)"""
    return range(i + 1, i + num[i][4] - num[i][0])

def resolve(sp, target):
    """entry of number() for a target (list of names); None if there is none. A lone name is its first
    occurrence; a dotted target the named action inside the named phases. None as well when the
    documentation leaves open which occurrence is meant (see ambiguous())."""
    num = number(sp)
    i = 0
    for j, t in enumerate(target):
        hits = [k for k in _within(num, i) if named(num[k][2], t)]
        if not hits or (j + 1 < len(target) and num[hits[0]][1] != 'phases'):
            return None
        i = hits[0]
    return num[i]

def ambiguous(sp, target):
    """a dotted target names more than one place: some other chain of (directly or indirectly) containing phases matches too"""
    num = number(sp)
    def places(i, ts):
        if not ts:
            return {i}
        out = set()
        for k in _within(num, i):
            if named(num[k][2], ts[0]):
                out |= places(k, ts[1:])
        return out
    if len(target) == 1:
        return False
    return len(places(0, target)) > 1

def interval(sp, lt):
    """[b, e) of action numbers; b None: from the start, e None: to the end"""
    b = e = None
    if lt.begin:
        en = resolve(sp, lt.begin[0])
        b = en[0] if lt.begin[1] else en[4]
    if lt.end:
        en = resolve(sp, lt.end[0])
        e = en[4] if lt.end[1] else en[0]
    return b, e

# ------------------------------------------------------------------ printing
def p_lt(lt):
    if not lt.begin and not lt.end and lt.bare:
        return lt.kind
    def rng_b():
        if not lt.begin:
            return lt.open_b
        return ('[' if lt.begin[1] else '(') + '.'.join(lt.begin[0])
    def rng_e():
        if not lt.end:
            return lt.open_e
        return '.'.join(lt.end[0]) + (']' if lt.end[1] else ')')
    return '%s %s -> %s' % (lt.kind, rng_b(), rng_e())

def p_opts(ctor, lts, extra=()):
    o = (['construct' if False else 'constructor'] if ctor else []) + list(extra) + [p_lt(l) for l in lts]
    return (' { %s }' % ', '.join(o)) if o else ''

CASE = threading.local()
def ref(x):
    """a reference to a name, now and then in another case (names are compared without regard to case)"""
    r = getattr(CASE, 'rng', None)
    return x if r is None or x in CTYPE or r.random() > .1 else r.choice([x.upper(), x.lower(), x.swapcase()])

def p_attr(a):
    return ref(a.type) + ' ' + a.name + p_opts(a.ctor, a.lts, ([a.ag] if getattr(a, 'ag', None) else []))

def p_node(n):
    parts = []
    if n.children:
        parts.append('children { ' + ', '.join('%s %s%s' % (ref(c.type), c.name, p_opts(c.ctor, c.lts)) for c in n.children) + ' }')
    if n.attrs:
        parts.append('attributes { ' + ', '.join(p_attr(a) for a in n.attrs) + ' }')
    if getattr(n, 'eqs', None):
        parts.append('equations { ' + ', '.join('%s = { args = { %s } }' % (e[0], ', '.join(e[1])) if e[1] else '%s = {}' % e[0] for e in n.eqs) + ' }')
    if n.lts:
        parts.append('lifetime { ' + ', '.join(p_lt(l) for l in n.lts) + ' }')
    return '%snode %s { %s }' % ('root ' if n.root else '', n.name, ', '.join(parts))

def p_trav(t, rng):
    o = []
    if t.info:
        o.append('info = "%s"' % t.info)
    o.append('uid = %s' % t.uid)
    if t.nodes is not None:
        o.append('nodes = ' + set_print(t.nodes, rng, ref))
    if t.data:
        o.append('travdata { %s }' % ', '.join('%s %s' % (ref(d.type), d.name) for d in t.data))
    return 'traversal %s { %s }' % (t.name, ', '.join(o))

def p_pass(p):
    if p.uid and p.func:
        return 'pass %s { uid = %s, func = %s }' % (p.name, p.uid, p.func)
    if p.uid:
        return 'pass %s { uid = %s }' % (p.name, p.uid)
    if p.func:
        return 'pass %s = %s' % (p.name, p.func)
    return 'pass %s' % p.name

def to_ccn(sp, seed=0, inline=False):
    rng = random.Random(seed)
    CASE.rng = random.Random(seed + 77) if seed % 3 == 1 else None
    es = []
    inl = set()
    def p_phase(p):
        o = []
        if p.info and not (p.cycle and p.uid and p.gate):
            o.append('info = "%s"' % p.info)
        if p.uid:
            o.append('uid = %s' % p.uid)
        if p.gate:
            o.append('gate = %s' % p.gate)
        acts = []
        for a in p.actions:
            kind, x = find_action(sp, a)
            if inline and x is not None and id(x) not in inl and rng.random() < .5 and a.lower() == x.name.lower() and not (kind == 'phases' and x.start):
                inl.add(id(x))
                acts.append({'phases': p_phase, 'passes': p_pass, 'travs': lambda t: p_trav(t, rng)}[kind](x))
            else:
                acts.append(ref(a))
        o.append('actions { %s }' % ' '.join(a + ';' for a in acts))
        return '%s%s %s { %s }' % ('start ' if p.start else '', 'cycle' if p.cycle else 'phase', p.name, ', '.join(o))
    order = [p for p in sp.phases]
    for p in sorted(order, key=lambda p: not p.start):
        if id(p) not in inl:
            inl.add(id(p))
            es.append(p_phase(p))
    for p in sp.passes:
        if id(p) not in inl:
            es.append(p_pass(p))
    for t in sp.travs:
        if id(t) not in inl:
            es.append(p_trav(t, rng))
    for n in sp.nodes:
        es.append(p_node(n))
    for s in sp.nodesets:
        if getattr(s, 'attrs', None):
            es.append('nodeset %s { nodes = %s, attributes { %s } }' % (s.name, set_print(s.expr, rng, ref), ', '.join(p_attr(a) for a in s.attrs)))
        elif rng.random() < .3:
            es.append('nodeset %s { nodes = %s }' % (s.name, set_print(s.expr, rng, ref)))
        else:
            es.append('nodeset %s = %s' % (s.name, set_print(s.expr, rng, ref)))
    for e in sp.enums:
        es.append('enum %s { prefix = %s, values { %s } }' % (e.name, e.prefix, ', '.join(e.values)))
    if getattr(sp, 'shuffle', True):
        rng.shuffle(es)
    return ';\n'.join(es) + ';\n'

# ------------------------------------------------------------------ generation
def rand_phases(rng, sp, nact, p_phase=.35, p_rep=.15):
    acts = ACT_POOL[:]
    rng.shuffle(acts)
    uids = UIDS[:]
    rng.shuffle(uids)
    phs = PHASE_POOL[:]
    rng.shuffle(phs)
    puid = ['pu1', 'PU2', 'pu3', 'Pu4', 'pu5', 'pu6', 'pu7']
    gates = ['gateA', 'gateB', 'gateC']
    sp.phases, sp.passes, sp.travs = [], [], []
    left = [nact]
    def new_trav():
        t = O(name=acts.pop(), uid=uids.pop(), info=rng.choice([None, None, 'some info']), nodes=None, data=[])
        sp.travs.append(t)
        return t.name
    def new_pass():
        n = acts.pop()
        u = puid.pop() if puid and rng.random() < .2 else None
        f = ('fn_' + n) if rng.random() < .3 else None
        if u and not f:
            pass
        sp.passes.append(O(name=n, uid=u, func=f))
        return n
    def phase(start, depth):
        p = O(name=phs.pop(), uid=('ph%d' % len(phs)) if rng.random() < .2 else None, gate=rng.choice(gates) if (not start and rng.random() < .2) else None,
              cycle=(not start and rng.random() < .3), start=start, actions=[], info=rng.choice([None, None, 'phase info']))
        sp.phases.append(p)
        for _ in range(rng.randint(1 if not start else 2, 4)):
            r = rng.random()
            done = [a.name for a in sp.passes + sp.travs]
            if left[0] <= 0 and p.actions:
                break
            if r < p_phase and phs and depth < 3 and (left[0] > 0):
                p.actions.append(phase(False, depth + 1))
            elif done and r < p_phase + p_rep:
                p.actions.append(rng.choice(done))
            elif uids and r < .8 and len(acts) > 0:
                p.actions.append(new_trav())
            elif acts:
                p.actions.append(new_pass())
            elif done:
                p.actions.append(rng.choice(done))
            left[0] -= 1
        return p.name
    phase(True, 0)
    # phases used more than once (never inside themselves)
    def inside(p):
        out = {p.name}
        for a in p.actions:
            k, x = find_action(sp, a)
            if k == 'phases':
                out |= inside(x)
        return out
    for p in list(sp.phases):
        if not p.start and rng.random() < .3:
            q = rng.choice(sp.phases)
            if q.name not in inside(p):
                q.actions.insert(rng.randint(0, len(q.actions)), p.name)
                if len(number(sp)) > 40:
                    q.actions.remove(p.name)
    return sp

def rand_lt(rng, sp, kinds, whole=True):
    num = number(sp)[1:]
    def target():
        e = rng.choice(num)
        path = e[3][1:]
        k = 1 if rng.random() < .6 else rng.randint(1, len(path))
        t = []
        for x in path[-k:]:
            t.append(x.uid if x.uid and rng.random() < .3 else x.name)
        if rng.random() < .1:
            t = [x.upper() for x in t]
        if ambiguous(sp, t) or resolve(sp, t) is None:
            return target()
        return t
    for _ in range(20):
        kind = rng.choice(kinds)
        if whole and kind in ('mandatory', 'disallowed') and rng.random() < .35:
            return O(kind=kind, begin=None, end=None, bare=True, open_b='', open_e='')
        b = (target(), rng.random() < .5) if rng.random() < .75 else None
        e = (target(), rng.random() < .5) if rng.random() < .75 else None
        if not b and not e:
            continue
        lt = O(kind=kind, begin=b, end=e, bare=False, open_b=rng.choice(['(', '(']), open_e=rng.choice([')', ')']))
        bb, ee = interval(sp, lt)
        if (bb or 0) < (ee if ee is not None else 10**9):
            return lt
    return O(kind='mandatory', begin=None, end=None, bare=True, open_b='', open_e='')

def rand_spec(seed, lifetimes=True, ag=False, nn=None, sparse=False, nact=None, mand=True, wide=True):
    rng = random.Random(seed)
    sp = Spec(nodes=[], nodesets=[], enums=[], travs=[], passes=[], phases=[], seed=seed)
    names = NODE_POOL[:]
    rng.shuffle(names)
    names = names[:nn or rng.randint(2, 9)]
    sets = SET_POOL[:]
    rng.shuffle(sets)
    for i in range(rng.randint(1, 2)):
        vals = rng.sample(['red', 'Green', 'blue', 'ADD', 'sub', 'NONE'], rng.randint(1, 4))
        sp.enums.append(O(name=['Color', 'binop'][i], prefix=['CO', 'Bo'][i], values=vals))
    rand_phases(rng, sp, nact or rng.randint(3, 10))
    sp.nodes = [O(name=n, root=False, children=[], attrs=[], lts=[], eqs=[]) for n in names]
    for s in sets[:rng.randint(0, 4)]:
        for _ in range(30):
            e = rand_expr(rng, names, [x.name for x in sp.nodesets], rng.randint(0, 3))
            if set_eval(sp, e):
                break
        else:
            e = ('lit', names[:1])
        sp.nodesets.append(O(name=s, expr=e, attrs=[]))
    types = names + [s.name for s in sp.nodesets] * 2
    rng.choice(sp.nodes).root = True
    has_lt = lifetimes and rng.random() < .75
    for i, n in enumerate(sp.nodes):
        cp = CHILD_POOL[:]
        rng.shuffle(cp)
        k = rng.choice([0, 1, 1, 2, 2, 3, 4])
        if sparse:
            k = rng.choice([0, 1, 1, 1, 2])
        wide_ = rng.random() if wide else .5
        if wide_ < .12 and not sparse:
            k = rng.randint(5, 12)
        for c in cp[:k]:
            ty = rng.choice(types)
            if sparse and rng.random() < .8:
                ty = rng.choice([x for x in names])
            lts = []
            if has_lt:
                for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                    lts.append(rand_lt(rng, sp, ['mandatory', 'optional', 'disallowed', 'allowed']))
            elif mand and rng.random() < .3:
                lts.append(O(kind='mandatory', begin=None, end=None, bare=True, open_b='', open_e=''))
            n.children.append(O(name=c, type=ty, ctor=rng.random() < .4, lts=lts))
        ap = ATTR_POOL[:]
        rng.shuffle(ap)
        for a in ap[:rng.choice([0, 1, 2, 3, 5]) if wide_ < .9 else rng.randint(6, 14)]:
            r = rng.random()
            ty = 'string' if r < .3 else rng.choice(names + [s.name for s in sp.nodesets]) if r < .45 else rng.choice(sp.enums).name if r < .6 else rng.choice(PRIM)
            lts = []
            if has_lt and (ty == 'string' or sp.types_of(ty)):
                for _ in range(rng.choice([0, 1, 1, 2])):
                    lts.append(rand_lt(rng, sp, ['mandatory', 'optional', 'disallowed', 'allowed']))
            n.attrs.append(O(name=a, type=ty, ctor=rng.random() < .4, lts=lts))
        if has_lt and (n.children or n.attrs) and rng.random() < .5:
            for _ in range(rng.choice([1, 1, 2])):
                n.lts.append(rand_lt(rng, sp, ['disallowed', 'allowed']))
    # nodeset attributes: only sets built with '|' alone may carry them; members get the attribute
    for t in sp.travs:
        if rng.random() < .75:
            for _ in range(30):
                t.nodes = rand_expr(rng, names, [s.name for s in sp.nodesets], rng.randint(0, 2))
                if set_eval(sp, t.nodes):
                    break
            else:
                t.nodes = None
        if rng.random() < .5:
            ap = ATTR_POOL[:]
            rng.shuffle(ap)
            for a in ap[:rng.randint(1, 4)]:
                r = rng.random()
                t.data.append(O(name=a, type='string' if r < .2 else rng.choice(names) if r < .4 else rng.choice(sp.enums).name if r < .55 else rng.choice(PRIM)))
    sp.lts_any = has_lt
    return sp

# ------------------------------------------------------------------ systematic specifications
def _shuffled(rng, l):
    l = list(l)
    rng.shuffle(l)
    return l

def grid_lifetimes(seed, nact=9):
    """every kind of lifetime x begin (none, inclusive, exclusive) x end (none, inclusive, exclusive), on a child, an attribute and a node type"""
    rng = random.Random(seed)
    for k in range(100):
        sp = rand_spec(seed + 100000 * k, lifetimes=False, mand=False, nn=21, nact=nact, wide=False)
        if len(number(sp)) >= 8:
            break
    sp.seed = seed + 600000
    def mk(kind, b, e):
        if b is None and e is None:
            return O(kind=kind, begin=None, end=None, bare=True, open_b='', open_e='')
        for _ in range(200):
            lt = rand_lt(rng, sp, [kind], False)
            if lt.bare:
                continue
            if (lt.begin is None) == (b is None) and (lt.end is None) == (e is None):
                if lt.begin: lt.begin = (lt.begin[0], b)
                if lt.end: lt.end = (lt.end[0], e)
                bb, ee = interval(sp, lt)
                if (bb or 0) < (ee if ee is not None else 10**9):
                    return lt
        return None
    ends = [(b, e) for b in (None, True, False) for e in (None, True, False)]
    slot = [mk(k, b, e) for k in ('mandatory', 'optional', 'disallowed', 'allowed') for b, e in ends if (b, e) != (None, None) or k in ('mandatory', 'disallowed')]
    slot = [x for x in slot if x]
    whole = [x for x in [mk(k, b, e) for k in ('disallowed', 'allowed') for b, e in ends if (b, e) != (None, None)] if x]
    cs, ats = _shuffled(rng, slot), _shuffled(rng, slot)
    whole = _shuffled(rng, whole)
    names = [n.name for n in sp.nodes]
    plain = names[-3:]
    types = names + plain * 8 + [s.name for s in sp.nodesets] * 3
    for n in sp.nodes[:-3]:
        n.children, n.attrs = [], []
        for c in _shuffled(rng, CHILD_POOL)[:rng.choice([2, 2, 3])]:
            n.children.append(O(name=c, type=rng.choice(types), ctor=rng.random() < .4, lts=[cs.pop()] if cs and len(n.children) < 2 else []))
        for a in _shuffled(rng, ATTR_POOL)[:rng.choice([2, 2, 3])]:
            lt = [ats.pop()] if ats and len(n.attrs) < 2 else []
            n.attrs.append(O(name=a, type=rng.choice(['string', rng.choice(types)]) if lt else rng.choice(PRIM), ctor=rng.random() < .4, lts=lt))
        if whole:
            n.lts = [whole.pop()]
    for n in sp.nodes[-3:]:
        n.children, n.attrs = [], n.attrs[:1]
    sp.lts_any = True
    return sp

def grid_attrs(seed, nn=14):
    """every attribute type, alone in its node, first and last, with and without constructor"""
    rng = random.Random(seed)
    sp = rand_spec(seed, lifetimes=False, mand=False, nn=nn, wide=False)
    sp.seed = seed + 700000
    names = [n.name for n in sp.nodes]
    kinds = PRIM + [sp.enums[0].name, rng.choice(names)] + ([rng.choice(sp.nodesets).name] if sp.nodesets else [])
    todo = _shuffled(rng, [(t, c) for t in kinds for c in (True, False)])
    sh = [todo[i::len(sp.nodes)] for i in range(len(sp.nodes))]
    for n, l in zip(sp.nodes, sh):
        n.attrs = [O(name=a, type=t, ctor=c, lts=[]) for a, (t, c) in zip(_shuffled(rng, ATTR_POOL), l[:rng.choice([1, 2, 3])])]
        n.children = n.children[:rng.choice([0, 1, 2])]
    return sp

def grid_children(seed, nn=8):
    """child type (node, node set) x constructor x mandatory, in every position of nodes with one, two and three children"""
    rng = random.Random(seed)
    for k in range(50):
        sp = rand_spec(seed + 100000 * k, lifetimes=False, mand=False, nn=nn, wide=False)
        if sp.nodesets:
            break
    sp.seed = seed + 500000
    combos = _shuffled(rng, [(s, c, m) for s in (0, 1) for c in (0, 1) for m in (0, 1)] * 3)
    names = [n.name for n in sp.nodes]
    for i, n in enumerate(sp.nodes):
        n.children = []
        for c in _shuffled(rng, CHILD_POOL)[:1 + i % 3]:
            s, ct, m = combos.pop() if combos else (rng.random() < .5, rng.random() < .5, rng.random() < .5)
            n.children.append(O(name=c, type=rng.choice(sp.nodesets).name if s else rng.choice(names), ctor=bool(ct),
                                lts=[O(kind='mandatory', begin=None, end=None, bare=True, open_b='', open_e='')] if m else []))
        n.attrs = n.attrs[:2]
    return sp

def grid_travs(seed):
    """traversals over all and over some nodes, without data, with one datum of every type, with several"""
    rng = random.Random(seed)
    sp = rand_spec(seed, lifetimes=False, nn=rng.randint(3, 6), nact=3, wide=False)
    sp.seed = seed + 800000
    names = [n.name for n in sp.nodes]
    types = PRIM + [sp.enums[0].name, names[0]]
    todo = [[t] for t in types] * 2 + [[], [], []] + [rng.sample(types, rng.randint(2, 4)) for _ in range(6)]
    st = [p for p in sp.phases if p.start][0]
    for i, d in enumerate(todo):
        t = O(name='walk%d' % i, uid='G%s%s' % (chr(65 + i // 26), chr(97 + i % 26)), info=None, nodes=None, data=[])
        if i % 2:
            t.nodes = ('lit', rng.sample(names, rng.randint(1, len(names))))
        for a, ty in zip(_shuffled(rng, ATTR_POOL), d):
            t.data.append(O(name=a, type=ty))
        sp.travs.append(t)
        st.actions.append(t.name)
    for i in range(len(PRIM) + 2):
        # both kinds for every type
        a, b = sp.travs[-len(todo) + i], sp.travs[-len(todo) + i + len(PRIM) + 2]
        if (a.nodes is None) == (b.nodes is None):
            b.nodes = ('lit', rng.sample(names, 1)) if a.nodes is None else None
    return sp

def grid_reach(seed, nn=14):
    """long thin ways to the handled nodes: in every node one child (in any position, or one member of its set) leads on, the others lead nowhere"""
    rng = random.Random(seed)
    sp = rand_spec(seed, lifetimes=False, mand=False, nn=nn, nact=3, wide=False)
    sp.seed = seed + 900000
    names = _shuffled(rng, [n.name for n in sp.nodes])
    dead, way = names[:4], names[4:]
    sp.nodesets = []
    sp.travs, acts = [], []
    sets = _shuffled(rng, SET_POOL)
    by = {n.name: n for n in sp.nodes}
    for n in sp.nodes:
        n.children, n.attrs, n.lts = [], n.attrs[:1], []
    def child(n, ty):
        free = [c for c in CHILD_POOL if c not in [x.name for x in n.children]]
        n.children.append(O(name=rng.choice(free), type=ty, ctor=rng.random() < .7, lts=[]))
    def mkset(ms):
        s = O(name=sets.pop(), expr=('lit', _shuffled(rng, ms)), attrs=[])
        sp.nodesets.append(s)
        return s.name
    dsets = [mkset(rng.sample(dead, 3))]
    for i, w in enumerate(way):
        n = by[w]
        on = None
        if i + 1 < len(way):
            on = way[i + 1 if rng.random() < .7 else rng.randrange(i + 1, len(way))]
            if sets and rng.random() < .5:
                on = mkset(rng.sample(dead, rng.randint(1, 3)) + [on])
        kids = [rng.choice(dead[:2] + dsets + ([way[rng.randrange(i + 1)]] if rng.random() < .3 else [])) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
        if on:
            kids.insert(rng.randint(0, len(kids)), on)
        for k in kids:
            child(n, k)
    if rng.random() < .5:
        child(by[dead[3]], dead[3])
    sp.phases = [p for p in sp.phases if p.start][:1]
    sp.passes = []
    sp.phases[0].actions = []
    for i in range(16):
        t = O(name='walk%d' % i, uid='R%s' % chr(97 + i), info=None, data=[], nodes=('lit', rng.sample(way[2:], 1) if i % 4 else rng.sample(names, rng.randint(1, 3))))
        sp.travs.append(t)
        sp.phases[0].actions.append(t.name)
    return sp
