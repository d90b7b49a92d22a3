"""random attribute grammars and the programs that evaluate them (C15)

Oracle: the value of an attribute is what its equation gives for the values of the attributes it
uses (for an inherited attribute the equation of the parent), arguments of absent children left
out.  Every equation is an injective-looking mix of its own number, the absent children and its
arguments, so a value computed from an attribute that was not evaluated yet is a wrong value."""
import zlib
import os, random, re
from . import spec as S
O = S.O

# lifetimes of children that may be absent
MAYBE = ['', '', ' {optional [doit -> )}', ' {mandatory ( -> doit)}', ' {mandatory [doit -> )}', ' {mandatory ( -> doit]}', ' {optional ( -> doit), disallowed ( -> doit)}']

def attr(name, kind, type='int'):
    return O(name=name, kind=kind, type=type)                 # kind: syn, inh, cls

class AG:
    def __init__(self, seed):
        self.seed, self.nodes, self.sets = seed, [], []
    def node(self, n): return next(x for x in self.nodes if x.name == n)
    def iset(self, n): return next((x for x in self.sets if x.name == n), None)
    def members(self, s):
        r = []
        for m in self.iset(s).items:
            for x in (self.members(m) if self.iset(m) else [m]):
                if x not in r:
                    r.append(x)
        return r
    def types(self, t): return self.members(t) if self.iset(t) else [t]
    def sets_of(self, n): return [s for s in self.sets if n in self.members(s.name)]
    def attrs(self, t):
        """attributes seen through type t: own ones and those of the node sets it belongs to"""
        s = self.iset(t)
        if s:
            r = list(s.attrs)
            for u in self.sets:
                if u is not s and self.covers(u, s.name):
                    r += u.attrs
            return r
        r = list(self.node(t).attrs)
        for u in self.sets_of(t):
            r += u.attrs
        return r
    def covers(self, u, t):
        return any(m == t or (self.iset(m) and self.covers(self.iset(m), t)) for m in u.items)
    def attr(self, t, a): return next(x for x in self.attrs(t) if x.name == a)
    def rules(self, n):
        """(slot or -1, attribute) of every equation node n needs"""
        r = [(-1, a.name) for a in self.attrs(n.name) if a.kind == 'syn']
        for k, c in enumerate(n.children):
            r += [(k, a.name) for a in self.attrs(c.type) if a.kind == 'inh']
        return r

def rand_ag(seed, cyclic=False, sets=True, maxn=5):
    rng = random.Random(seed)
    g = AG(seed)
    nn = rng.randint(1, maxn)
    pool = ['at%s' % c for c in 'abcdefghij']
    rank = {a: i for i, a in enumerate(rng.sample(pool, len(pool)))}
    kinds = {a: rng.choice(['syn', 'syn', 'inh', 'inh', 'cls']) for a in pool}
    names = ['Nd%s' % c for c in 'pqrstuvw'][:nn]
    free = {n: list(pool) for n in names}
    if sets:
        for i in range(rng.choice([0, 1, 1, 2])):
            ms = rng.sample(names, rng.randint(1, nn))
            items = list(ms)
            if g.sets and rng.random() < 0.0:
                t = rng.choice(g.sets)
                items = [t.name] + [m for m in ms if m not in g.members(t.name)]
            # nodes of several sets, or with more inherited attributes than their set, would miss equations
            over = any(set(ms) & set(g.members(t.name)) for t in g.sets)
            if over and any(a.kind == 'inh' for t in g.sets for a in t.attrs):
                break
            s = O(name='Set%s' % 'xyz'[i], items=items, attrs=[])
            g.sets.append(s)
            can = [a for a in pool if all(a in free[m] for m in g.members(s.name))]
            for a in rng.sample(can, min(len(can), rng.randint(0, 4))):
                if kinds[a] == 'cls' and rng.random() < 0.7:
                    continue
                if kinds[a] == 'inh' and over:
                    continue
                s.attrs.append(attr(a, kinds[a]))
                for m in g.members(s.name):
                    free[m].remove(a)
    for n in names:
        nd = O(name=n, root=False, children=[], attrs=[])
        has_inh = any(n in g.members(s.name) for s in g.sets)
        g.nodes.append(nd)
        for a in rng.sample(free[n], min(len(free[n]), rng.choice([0, 1, 1, 2, 3]))):
            if kinds[a] == 'inh' and has_inh:
                continue
            nd.attrs.append(attr(a, kinds[a]))
    root = O(name='Root', root=True, children=[], attrs=[attr(a, kinds[a]) for a in rng.sample(pool, rng.choice([0, 1, 2])) if kinds[a] != 'inh'])
    g.nodes.insert(0, root)
    for i, nd in enumerate(g.nodes):
        for k in range(rng.choice([1, 2, 2, 3] if nd.root else [0, 0, 1, 2, 2, 3])):
            t = rng.choice([s.name for s in g.sets] * 2 + names)
            man = rng.random() < 0.4 and (nd.root or all(names.index(m) > i - 1 for m in g.types(t)))
            nd.children.append(O(name='ch%s' % 'abcd'[k], type=t, mandatory=man))
    # an equation uses attributes of lower rank only, unless cyclic ones are wanted
    loose = 0.15 if cyclic else 0
    for nd in g.nodes:
        nd.eqs = {}
        uses = [(-1, a.name, a) for a in g.attrs(nd.name)] + [(k, a.name, a) for k, c in enumerate(nd.children) for a in g.attrs(c.type)]
        for (k, a) in g.rules(nd):
            can = [(j, b) for j, b, x in uses if (x.kind == 'cls' and j < 0) or (x.kind != 'cls' and (rank[b] < rank[a] or rng.random() < loose) and (cyclic or (j, b) != (k, a)))]
            nd.eqs[(k, a)] = rng.sample(can, min(len(can), rng.choice([0, 1, 2, 2, 3, 4])))
        nd.order = list(nd.eqs)
        rng.shuffle(nd.order)
    return g

def chain_ag(seed):
    """few nodes whose attributes take several visits: by rank, inherited and synthesized ones alternate"""
    rng = random.Random(seed * 7919 + 5)
    g = AG(100000 + seed)
    pool = ['at%s' % c for c in 'abcdefgh']
    rank = {a: i for i, a in enumerate(rng.sample(pool, len(pool)))}
    off, skew = rng.randint(0, 1), None
    kinds = {a: 'inh' if (rank[a] + off) % 2 == 0 else 'syn' for a in pool}
    names = ['Nd%s' % c for c in 'pqr'][:rng.choice([1, 2, 2, 3])]
    free = {n: list(pool) for n in names}
    if len(names) > 1 and rng.random() < 0.6:
        ms = rng.sample(names, rng.randint(1, len(names)))
        s = O(name='Setx', items=ms, attrs=[attr(a, kinds[a]) for a in rng.sample(pool, rng.choice([2, 3, 4]))])
        g.sets.append(s)
        for m in ms:
            free[m] = [a for a in free[m] if a not in [x.name for x in s.attrs] and kinds[a] != 'inh']
    for n in names:
        nd = O(name=n, root=False, children=[], attrs=[])
        k = rng.choice([0, 1]) if g.sets_of(n) else rng.choice([2, 3, 4])
        nd.attrs = [attr(a, kinds[a]) for a in rng.sample(free[n], min(len(free[n]), k))]
        g.nodes.append(nd)
    g.nodes.insert(0, O(name='Root', root=True, children=[], attrs=[attr(a, 'syn') for a in rng.sample([a for a in pool if kinds[a] == 'syn'], rng.choice([0, 1, 1]))]))
    for i, nd in enumerate(g.nodes):
        for k in range(rng.choice([1, 2]) if nd.root else rng.choice([0, 1, 1, 2]) if i == 1 else rng.choice([0, 0, 1])):
            t = rng.choice([s.name for s in g.sets] * 2 + names)
            man = rng.random() < 0.5 and (nd.root or all(names.index(m) > i - 1 for m in g.types(t)))
            nd.children.append(O(name='ch%s' % 'abcd'[k], type=t, mandatory=man))
    for nd in g.nodes:
        nd.eqs = {}
        skew = rng.random() < 0.5
        uses = [(-1, a.name) for a in g.attrs(nd.name)] + [(k, a.name) for k, c in enumerate(nd.children) for a in g.attrs(c.type)]
        for (k, a) in g.rules(nd):
            can = sorted([u for u in uses if rank[u[1]] < rank[a]], key=lambda u: -rank[u[1]])
            if rng.random() < 0.75:                                # mostly the ones evaluated just before
                can = can[:3]
            # late attributes of a child that are ready early, early ones that have to wait
            n = rng.choice([0, 1, 1, 2, 2]) if k < 0 or not skew else 0 if rank[a] >= 4 else 2
            nd.eqs[(k, a)] = rng.sample(can, min(len(can), n))
        nd.order = list(nd.eqs)
        rng.shuffle(nd.order)
    return g

def plan_ag(seed):
    """grammars made from a plan: every type has a number of visits, every node an interleaving of the
    visits of its children; node Fx forces the visits apart, so what a visit needs may be ready early"""
    rng = random.Random(seed * 104729 + 11)
    g = AG(200000 + seed)
    names = ['Nd%s' % c for c in 'pqr'][:rng.choice([1, 2, 2, 3])]
    visits = {n: rng.choice([1, 2, 2, 3]) for n in names}
    def own(n, k):
        r = []
        for v in range(k):
            for kind, pre in (('inh', 'in'), ('syn', 'sy')):
                for c in range((rng.choice([1, 1, 1, 2]) if n != 'Setx' else rng.choice([0, 0, 1, 2])) if kind == 'syn' else rng.choice([0, 1, 1, 1]) if v == 0 else 1):
                    x = attr('%s%s%s' % (pre, 'abc'[v], 'xy'[c] if c else ''), kind); x.visit = v
                    r.append(x)
        return r
    ms = [n for n in names if visits[n] == visits[names[-1]]]
    if len(ms) > 1 or rng.random() < 0.4:
        g.sets.append(O(name='Setx', items=ms, attrs=own('Setx', visits[names[-1]])))
    else:
        ms = []
    for n in names:
        nd = O(name=n, root=False, children=[], attrs=own(n, visits[n]) if n not in ms else [])
        if n in ms and rng.random() < 0.7:
            a = attr('sex', 'syn'); a.visit = rng.choice([0, rng.randrange(visits[n])]); nd.attrs.append(a)
        g.nodes.append(nd)
    tn = [s.name for s in g.sets] * 2 + names
    V = lambda t: visits[g.types(t)[0]]
    for i, nd in enumerate(g.nodes):
        for k in range(rng.choice([0, 1, 2, 2])):
            t = rng.choice(tn)
            nd.children.append(O(name='ch%s' % 'abcd'[k], type=t, mandatory=rng.random() < 0.5 and all(names.index(m) > i for m in g.types(t))))
    fix = O(name='Fx', root=False, attrs=[], children=[O(name='fc%s' % 'abcd'[k], type=t, mandatory=rng.random() < 0.5) for k, t in enumerate(sorted(set(tn)))])
    root = O(name='Root', root=True, attrs=[attr('res', 'syn')], children=[O(name='ch%s' % 'abc'[k], type=rng.choice(tn), mandatory=rng.random() < 0.5) for k in range(rng.choice([1, 2, 2, 3]))] + [O(name='fx', type='Fx', mandatory=False)])
    root.attrs[0].visit = 0
    g.nodes = [root] + g.nodes + [fix]
    visits['Root'], visits['Fx'] = 1, 1
    for nd in g.nodes:
        nd.eqs = {}
        todo = {k: 0 for k, c in enumerate(nd.children) if c.type != 'Fx'}
        avail = []
        for v in range(visits[nd.name]):
            last = v == visits[nd.name] - 1
            avail += [(-1, a.name) for a in g.attrs(nd.name) if a.kind == 'inh' and a.visit == v]
            steps = [k for k in todo for _ in range(V(nd.children[k].type) - todo[k])]
            rng.shuffle(steps)
            for k in steps if last else steps[:rng.randint(0, len(steps))]:
                w, c = todo[k], nd.children[k]
                todo[k] += 1
                at = g.attrs(c.type)
                new = [(k, a.name) for a in at if a.kind == 'inh' and a.visit == w]
                for t in new:
                    before = [(k, a.name) for a in at if a.kind == 'syn' and a.visit == w - 1]
                    nd.eqs[t] = before if nd is fix else rng.sample(avail, min(len(avail), rng.choice([0, 0, 1, 2])))
                avail += new + [(k, a.name) for a in at if a.kind == 'syn' and a.visit == w]
            new = [(-1, a.name) for a in g.attrs(nd.name) if a.kind == 'syn' and a.visit == v]
            for t in new:
                nd.eqs[t] = rng.sample(avail, min(len(avail), rng.choice([0, 1, 1, 2, 3])))
            avail += new
        nd.order = list(nd.eqs)
        rng.shuffle(nd.order)
    return g

def evaluated(g):
    """is there anything to evaluate below a root node"""
    seen, todo = set(), [n.name for n in g.nodes if n.root]
    while todo:
        t = todo.pop()
        if t not in seen:
            seen.add(t)
            todo += [x for c in g.node(t).children for x in g.types(c.type)]
    return any(a.kind != 'cls' for t in seen for a in g.attrs(t))

def broken(g, rng):
    """(what, text) of a grammar that has to be rejected, or None"""
    what = rng.choice(['missing equation', 'duplicate equation', 'duplicate argument', 'attribute depends on itself', 'equation for own inherited attribute', 'cycle through two attributes'])
    n = rng.choice([x for x in g.nodes if x.order] or [None])
    if n is None:
        return None
    t = rng.choice(n.order)
    old = n.eqs, n.order
    n.eqs, n.order = {k: list(v) for k, v in n.eqs.items()}, list(n.order)
    def back(r):
        n.eqs, n.order = old
        return (what, r) if r else None
    if what == 'missing equation':
        n.order = [x for x in n.order if x != t]
    elif what == 'duplicate equation':
        n.order = n.order + [t]
    elif what == 'duplicate argument':
        if not n.eqs[t]:
            return back(None)
        n.eqs[t] = n.eqs[t] + n.eqs[t][:1]
    elif what == 'attribute depends on itself':
        n.eqs[t] = n.eqs[t] + [t]
    elif what == 'cycle through two attributes':
        u = [x for x in n.order if x != t]
        if not u:
            return back(None)
        u = rng.choice(u)
        n.eqs[t] = [x for x in n.eqs[t] if x != u] + [u]
        n.eqs[u] = [x for x in n.eqs[u] if x != t] + [t]
    else:
        a = [x for x in g.attrs(n.name) if x.kind == 'inh']
        if not a:
            return back(None)
        k = (-1, rng.choice(a).name)
        n.eqs = dict(n.eqs); n.eqs[k] = []
        n.order = n.order + [k]
    return back(to_ccn(g))

def to_ccn(g, opts=None):
    o = ['start phase mainPhase { actions { pass doit; } };']
    def at(a):
        return 'int %s {%s}' % (a.name, {'syn': 'synthesized', 'inh': 'inherited', 'cls': 'constructor'}[a.kind])
    for s in g.sets:
        o.append('nodeset %s { nodes = {%s}%s };' % (s.name, ', '.join(s.items), ', attributes { %s }' % ', '.join(at(a).replace(' {constructor}', '') for a in s.attrs) if s.attrs else ''))
    for n in g.nodes:
        parts = []
        if n.children:
            parts.append('children { %s }' % ', '.join('%s %s%s' % (c.type, c.name, ' {mandatory}' if c.mandatory else MAYBE[zlib.crc32((n.name + c.type + c.name).encode()) % len(MAYBE)]) for c in n.children))
        if n.attrs:
            parts.append('attributes { %s }' % ', '.join(at(a) for a in n.attrs))
        if n.order:
            def ref(k, a): return ('this' if k < 0 else n.children[k].name) + '.' + a
            parts.append('equations { %s }' % ', '.join('%s = {args = {%s}}' % (ref(*t), ', '.join(ref(*d) for d in n.eqs[t])) for t in n.order))
        o.append('%snode %s { %s };' % ('root ' if n.root else '', n.name, ', '.join(parts)) if parts else '%snode %s { };' % ('root ' if n.root else '', n.name))
    return '\n'.join(o) + '\n'

def rule_id(g, n, t):
    return 1 + sum(len(x.order) for x in g.nodes[:g.nodes.index(n)]) + n.order.index(t)

def proto_rule(g, n, t, absent):
    return 'EVAL%s_%s_%s%s' % (n.name.lower(), 'this' if t[0] < 0 else n.children[t[0]].name.lower(), t[1].lower(), ''.join('_%s_NULL' % c for c in absent))

def emit(g, protos):
    """user equations and driver"""
    names = sorted({a.name for n in g.nodes for a in g.attrs(n.name)})
    aid = {a: i for i, a in enumerate(names)}
    o = ['#include <stdio.h>', '#include <stdlib.h>', '#include "ccngen/ast.h"', '#include "ccngen/enum.h"', '#include "ccngen/ag.h"', '#include "ccngen/equation.h"', '#include "ag_driver.h"']
    known = {}
    for n in g.nodes:
        for t in n.order:
            known[proto_rule(g, n, t, [])] = (n, t)
    for (f, params) in protos:
        base = [k for k in known if f == k or (f.startswith(k + '_') and f.endswith('_NULL'))]
        if not base:
            continue
        k = max(base, key=len)
        n, t = known[k]
        absent = [c for c in n.children if ('_%s_NULL' % c.name.lower()) in f[len(k):]]
        mask = sum(1 << n.children.index(c) for c in absent)
        ps = [p.split()[-1].lstrip('*') for p in params if p and p != 'void']
        o.append('int %s(%s) { return MIX(%d, %d%s); }' % (f, ', '.join('int ' + p for p in ps) or 'void', rule_id(g, n, t), mask, ''.join(', ' + p for p in ps)))
    o.append('const int ag_nattr = %d;' % max(1, len(names)))
    o.append('const char *ag_attrs[] = {%s};' % ', '.join(['"%s"' % a for a in names] or ['""']))
    # construction of random trees
    o.append('static node_st *make(int t, int depth);')
    for i, n in enumerate(g.nodes):
        o.append('static node_st *make_%d(int depth) {' % i)
        o.append('  int id = ag_reserve(%d, %d); node_st *n = AST%s(%s);' % (i, len(n.children), n.name.lower(), ', '.join('(int)rnd()' for a in ctor(g, n))))
        o.append('  ag_node[id].p = n;')
        for a in g.attrs(n.name):
            if a.kind == 'cls' and a not in ctor(g, n):
                o.append('  %s_%s(n) = (int)rnd();' % (n.name.upper(), a.name.upper()))
        for k, c in enumerate(n.children):
            ts = [j for j, x in enumerate(g.nodes) if x.name in g.types(c.type)]
            o.append('  { static const int ts[] = {%s}; int t = ts[rnd() %% %d];' % (', '.join(map(str, ts)), len(ts)))
            if c.mandatory:
                o.append('    if (1) {')
            else:
                o.append('    if (depth > 0 && ag_count < 60 && rnd() % 5) {')
            o.append('      int cid = ag_count; node_st *c = make(t, depth - 1); %s_%s(n) = c; ag_node[id].kid[%d] = cid; ag_node[cid].par = id; ag_node[cid].slot = %d; } }' % (n.name.upper(), c.name.upper(), k, k))
        o.append('  return n; }')
    o.append('static node_st *make(int t, int depth) { switch (t) {')
    for i, n in enumerate(g.nodes):
        o.append('  case %d: return make_%d(depth);' % (i, i))
    o.append('  } abort(); }')
    o.append('node_st *ag_make(void) { return make(0, 1 + (int)(rnd() % 5)); }')
    # stored values
    o.append('int ag_get(int id, int a) { node_st *n = ag_node[id].p; switch (ag_node[id].type * 64 + a) {')
    for i, n in enumerate(g.nodes):
        for a in g.attrs(n.name):
            o.append('  case %d: return %s_%s(n);' % (i * 64 + aid[a.name], n.name.upper(), a.name.upper()))
    o.append('  } abort(); }')
    o.append('int ag_kind(int t, int a) { switch (t * 64 + a) {')
    for i, n in enumerate(g.nodes):
        for a in g.attrs(n.name):
            o.append('  case %d: return %d;' % (i * 64 + aid[a.name], {'syn': 1, 'inh': 2, 'cls': 3}[a.kind]))
    o.append('  } return 0; }')
    o.append('const char *ag_type(int t) { switch (t) {' + ''.join(' case %d: return "%s";' % (i, n.name) for i, n in enumerate(g.nodes)) + ' } return "?"; }')
    # the equation of (owner type, slot, attribute), on reference values
    o.append('int ag_rule(int id, int slot, int a) { switch ((ag_node[id].type * 8 + slot + 1) * 64 + a) {')
    for i, n in enumerate(g.nodes):
        for t in n.order:
            o.append('  case %d: { int v[16], m = 0; long k = 0;' % ((i * 8 + t[0] + 1) * 64 + aid[t[1]]))
            used = sorted({d[0] for d in n.eqs[t] if d[0] >= 0})
            for c in used:
                o.append('    if (ag_node[id].kid[%d] < 0) m |= %d;' % (c, 1 << c))
            for d in n.eqs[t]:
                if d[0] < 0:
                    o.append('    v[k++] = ag_ref(id, %d);' % aid[d[1]])
                else:
                    o.append('    if (ag_node[id].kid[%d] >= 0) v[k++] = ag_ref(ag_node[id].kid[%d], %d);' % (d[0], d[0], aid[d[1]]))
            o.append('    return ag_mix(%d, m, v, k); }' % rule_id(g, n, t))
    o.append('  } return 0; }')
    return '\n'.join(o) + '\n'

def ctor(g, n):
    return [a for a in n.attrs if a.kind == 'cls']

def protos(d):
    r = []
    e = os.path.join(d, 'out', 'ccngen', 'equations')
    for f in sorted(os.listdir(e)) if os.path.isdir(e) else []:
        for m in re.finditer(r'^\s*[\w ]+?[ *](EVAL\w+)\(([^)]*)\);', open(os.path.join(e, f)).read(), re.M):
            r.append((m.group(1), [p.strip() for p in m.group(2).split(',')]))
    return r
