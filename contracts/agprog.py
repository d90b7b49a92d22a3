"""C15: the generated attribute evaluation (visit.c, ag.c) of a grammar, proved against its equations.

VAL_a(n) is any solution of the equations on the tree.  Every store to attribute a of node n has to
store VAL_a(n), every read through an accessor has to come after the store (ghost DONE_a, FLAG_a),
and each equation function is used with exactly the arguments that exist.  Visit k of a node type
comes after its visits 0..k-1 (ghost VISITED) and guarantees a set of facts (attributes of the node
and its children that are done, visits its children had), which grows only; the set of the last
visit has to contain every attribute of the node and every visit of each child.  A whole tree
follows by induction."""
import os, re, z3
from ccv import runner, front
from ccv.exec import *
from gen import ag as A, build as B
import contracts.genprog as G
from contracts.genprog import NT, CH, NC, SL, DATA, val

AIB = z3.ArraySort(I, z3.BoolSort())
TREE = z3.Function('in_tree', I, z3.BoolSort())
OWNER = z3.Function('owner_of_data', I, I)
ANY = z3.Int('any!node')
def VAL(a): return z3.Function('VAL_' + a, I, I)
def DN(a): return 'ghost:done_' + a
def FL(a): return 'ghost:flag_' + a
def VD(t, k): return 'ghost:visited_%s_%d' % (t, k)

def write_vt(g, d):
    o = ['#include <stdlib.h>', '#include "ccngen/ast.h"', '#include "ccngen/enum.h"', '#include "%s/out/visit.c"' % d, '#include "%s/out/ag.c"' % d]
    for i, n in enumerate(g.nodes):
        for j, c in enumerate(n.children):
            o.append('node_st **vt_c_%d_%d(node_st *n) { return &%s_%s(n); }' % (i, j, n.name.upper(), c.name.upper()))
        for j, a in enumerate(g.attrs(n.name)):
            o.append('void vt_g_%d_%d(node_st *n) { volatile int v = %s_%s(n); }' % (i, j, n.name.upper(), a.name.upper()))
    p = os.path.join(d, 'vt.c')
    open(p, 'w').write('\n'.join(o) + '\n')
    return p

_gen = {}
def program(g, scratch):
    k = (scratch, g.seed)
    if k not in _gen:
        d = os.path.join(scratch, 'ag_%d' % g.seed)
        rc, so, se = B.generate(B.cocogen(scratch), d, A.to_ccn(g))
        _gen[k] = (d, write_vt(g, d) if rc == 0 else None, rc, (so + se)[-600:])
    return _gen[k]

def flags(d):
    return ['-DNDEBUG', '-I' + os.path.join(d, 'out'), '-I' + runner.REPO + '/palm/include', '-I' + runner.REPO + '/copra']

class P:
    def __init__(self, g, d, tu):
        self.g, self.d, self.tu = g, d, tu
        self.vis = {}                                            # type -> visit numbers, in order
        low = {n.name.lower(): n for n in g.nodes}
        self.node = low
        for f in tu.funcs:
            m = re.match(r'CCNvisit_(\w+)_(\d+)$', f)
            if m and m.group(1) in low:
                self.vis.setdefault(m.group(1), []).append(int(m.group(2)))
        for v in self.vis.values():
            v.sort()
        self.protos = {f: ps for f, ps in A.protos(d)}
        self.rules = {A.proto_rule(g, n, t, []): (n, t) for n in g.nodes for t in n.order}
        self.keys()
    def nt(self, name): return IntV(self.tu.enums['NT_' + name.upper()])
    def idx(self, n): return self.g.nodes.index(n)
    def evattrs(self, t): return [a for a in self.g.attrs(t) if a.kind != 'cls']
    def names(self): return sorted({a.name for n in self.g.nodes for a in self.evattrs(n.name)})
    def keys(self):
        """(heap key -> attribute, value or flag), found by executing the documented read macros"""
        self.vkey, self.fkey = {}, {}
        log = []
        tu = front.load(os.path.join(self.d, 'vt.c'), [x for x in flags(self.d) if x != '-DNDEBUG'])
        eng = Engine([tu], {}, opts=dict(on_load=lambda e, st, k, a: log.append((k, a))),
                     builtins={f: (lambda e, st, a, rt, h, n: []) for f in self.errors()})
        for i, n in enumerate(self.g.nodes):
            for j, a in enumerate(self.g.attrs(n.name)):
                log.clear()
                fn = 'vt_g_%d_%d' % (i, j)
                st = St()
                x = z3.Int('dummy!n')
                eng.frames = []
                eng.push_frame(tu, tu.funcs[fn], fn)
                eng.mute += 1
                eng.inline_call(st, tu, tu.funcs[fn], fn, [x])
                eng.mute -= 1
                ks = [k for k, _ in log if k not in (NT, DATA) and not k.startswith('g:')]
                for k in ks:
                    (self.fkey if k.endswith('ccn_val_set') else self.vkey)[k] = a
    def errors(self):
        t = open(os.path.join(self.d, 'out', 'ccngen', 'ast.h')).read()
        return sorted(set(re.findall(r'\b(CCNaccesserror_\w+)\(', t))) + ['DBUGprintAssert']
    def children(self, c, h, n, node):
        """pointer of every child of node (of type n)"""
        eng = c.eng
        r = []
        for j in range(len(n.children)):
            st = h.st.copy()
            eng.mute += 1
            try:
                x = eng.inline_call(st, self.tu, self.tu.funcs['vt_c_%d_%d' % (self.idx(n), j)], 'vt_c', [node])
            finally:
                eng.mute -= 1
            l = eng.loc_of_ptr(x[-1][1])
            l = l if l is not None else (SL, x[-1][1])
            r.append(z3.simplify(z3.Select(h[l[0]], l[1])))
        return r
    # -- facts
    def facts(self, n):
        """everything a visit of type n may guarantee: (kind, slot, ...)"""
        r = [('D', -1, a.name) for a in self.evattrs(n.name)]
        for c, ch in enumerate(n.children):
            r += [('D', c, a.name) for a in self.evattrs(ch.type)]
            for t in self.g.types(ch.type):
                r += [('V', c, t.lower(), k) for k in self.vis.get(t.lower(), [])]
        return r
    def goal(self, n):
        r = [('D', -1, a.name) for a in self.evattrs(n.name)]
        for c, ch in enumerate(n.children):
            for t in self.g.types(ch.type):
                r += [('V', c, t.lower(), k) for k in self.vis.get(t.lower(), [])]
        return r
    def fact(self, f, h, node, kids):
        x = node if f[1] < 0 else kids[f[1]]
        if f[0] == 'D':
            b = z3.And(h.f(DN(f[2]), x), h.f(FL(f[2]), x))
        else:
            b = z3.Implies(h.f(NT, x) == self.nt(f[2]), h.f(VD(f[2], f[3]), x))
        return b if f[1] < 0 else z3.Implies(x != 0, b)
    def show(self, f, n):
        w = 'its' if f[1] < 0 else "child %s's" % n.children[f[1]].name
        return '%s attribute %s is evaluated' % (w, f[2]) if f[0] == 'D' else 'visit %d of child %s (%s) is done' % (f[3], n.children[f[1]].name, f[2])
    def ghosts(self):
        return [DN(a) for a in self.names()] + [FL(a) for a in self.names()] + [VD(t, k) for t, v in self.vis.items() for k in v]

def cases(p, n):
    """which children are there, and of what type"""
    def go(c):
        node, h = c.args[0], c.pre
        kids = p.children(c, h, n, node)
        out = [([], [(z3.simplify(h.f(NT, node)), p.nt(n.name))])]
        for ch, x in zip(n.children, kids):
            opt = [([x == 0], [(x, IntV(0))])] if not ch.mandatory else []
            for t in p.g.types(ch.type):
                opt.append(([x != 0, h.f(NT, x) == p.nt(t)], [(z3.simplify(x == 0), z3.BoolVal(False)), (z3.simplify(h.f(NT, x)), p.nt(t))]))
            out = [(a + b, m + k) for (a, m) in out for (b, k) in opt]
        return [('', z3.And(a) if a else z3.BoolVal(True), m) for (a, m) in out]
    return go

def decide(eng, st, c):
    if not eng.case:
        return None
    r = z3.simplify(z3.substitute(z3.simplify(c), *eng.case))
    return True if z3.is_true(r) else False if z3.is_false(r) else None

def owner(eng, st, addr):
    """the node a data block belongs to: known for the node and its children"""
    a = z3.simplify(addr)
    for x in eng.ag_terms[:-1]:
        if a.eq(z3.simplify(z3.Select(eng.harr(st, DATA), x))):
            return x
    return OWNER(addr)

def wf(p, c, h, n, node, kids):
    r = [node != 0, h.f(NT, node) == p.nt(n.name), h.f(NC, node) == len(n.children), h.f(DATA, node) != 0, OWNER(h.f(DATA, node)) == node]
    for ch, x in zip(n.children, kids):
        r.append(z3.Or(*([x == 0] if not ch.mandatory else []), z3.And(x != 0, TREE(x), OWNER(h.f(DATA, x)) == x, h.f(DATA, x) != 0, z3.Or([h.f(NT, x) == p.nt(t) for t in p.g.types(ch.type)]))))
    return r

def F(rule, mask, k):
    f = z3.Function('equation_%d_%d' % (rule, mask), *([I] * (k + 1)))
    return lambda a: f(*a) if a else f()

def equations(p, c, n, node, kids):
    """the equations of this node, for every combination of absent children"""
    r = []
    h = c.pre
    cls = {(t, a.name): k for t in [n.name] for k, a in [(None, a) for a in p.g.attrs(n.name) if a.kind == 'cls']}
    for t in n.order:
        deps = n.eqs[t]
        used = sorted({d[0] for d in deps if d[0] >= 0})
        for m in range(1 << len(used)):
            absent = [used[b] for b in range(len(used)) if m >> b & 1]
            mask = sum(1 << x for x in absent)
            args = [VAL(d[1])(node if d[0] < 0 else kids[d[0]]) for d in deps if d[0] not in absent]
            tgt = VAL(t[1])(node if t[0] < 0 else kids[t[0]])
            g = [kids[x] == 0 if x in absent else kids[x] != 0 for x in used] + ([kids[t[0]] != 0] if t[0] >= 0 else [])
            r.append(z3.Implies(z3.And(g), tgt == F(A.rule_id(p.g, n, t), mask, len(args))(args)))
    return r

def eval_contracts(p):
    C = {}
    for f, ps in p.protos.items():
        base = [k for k in p.rules if f == k or (f.startswith(k + '_') and f.endswith('_NULL'))]
        if not base:
            continue
        k = max(base, key=len)
        n, t = p.rules[k]
        mask = sum(1 << j for j, c in enumerate(n.children) if '_%s_NULL' % c.name.lower() in f[len(k):])
        deps = [d for d in n.eqs[t] if not (d[0] >= 0 and mask >> d[0] & 1)]
        def ens(c, n=n, t=t, mask=mask, deps=deps, ps=ps):
            if len(c.args) != len(deps):
                return []
            return [('value', c.ret == F(A.rule_id(p.g, n, t), mask, len(deps))(list(c.args)))]
        C[f] = Contract(f, None, ens, lambda c: {}, trusted=True)
    return C

def params(p, f):
    """parameter names of a visit"""
    fd = p.tu.funcs[f]
    return [x.get('name', '') for x in fd.get('inner', []) if x['kind'] == 'ParmVarDecl']

def visit_contract(p, n, k, POST):
    t = n.name.lower()
    f = 'CCNvisit_%s_%d' % (t, k)
    before = [j for j in p.vis[t] if j < k]
    names = params(p, f)
    def pre(c):
        node = c.args[0]
        r = [('a node of this type in the tree', z3.And(node != 0, TREE(node), c.pre.f(NT, node) == p.nt(n.name)))]
        for j in before:
            r.append(('visit %d of the node came first' % j, c.pre.f(VD(t, j), node)))
        for x, v in zip(names[1:], c.args[1:]):
            a = x[5:] if x.startswith('this_') else None
            m = [y for y in p.evattrs(n.name) if y.name.lower() == a]
            if m:
                r.append(("the value of inherited attribute %s" % m[0].name, v == VAL(m[0].name)(node)))
        return r
    def assume(c):
        node, h = c.args[0], c.pre
        kids = p.children(c, h, n, node)
        r = wf(p, c, h, n, node, kids) + equations(p, c, n, node, kids)
        for j in before:
            r += [p.fact(x, h, node, kids) for x in POST[(t, j)]]
        for ch, x in zip(n.children, kids):
            for t2 in p.g.types(ch.type):
                for j in p.vis.get(t2.lower(), []):
                    for y in POST[(t2.lower(), j)]:
                        if y[0] == 'D' and y[1] < 0:
                            r.append(z3.Implies(z3.And(x != 0, h.f(NT, x) == p.nt(t2), h.f(VD(t2.lower(), j), x)), p.fact(y, h, x, None)))
        c.eng.ag_terms = [node] + kids + [ANY]
        return [('', z3.And(x) if isinstance(x, list) else x) for x in r]
    def ens(c):
        node, h, pr = c.args[0], c.post, c.pre
        r = []
        if c.ret is None or not is_top(c):
            # at a call
            for x in c.eng.ag_terms:
                for gk in p.ghosts():
                    r.append(('', z3.Implies(pr.f(gk, x), h.f(gk, x))))
            r.append(('', h.f(VD(t, k), node)))
            for y in POST[(t, k)]:
                if y[1] < 0:
                    r.append(('', p.fact(y, h, node, None)))
            return r
        kids = p.children(c, pr, n, node)
        for y in POST[(t, k)]:
            r.append(('after visit %d of %s: %s' % (k, n.name, p.show(y, n)), p.fact(y, h, node, kids)))
        if k == p.vis[t][-1]:
            for y in p.goal(n):
                if y not in POST[(t, k)]:
                    r.append(('after the last visit of %s: %s' % (n.name, p.show(y, n)), p.fact(y, h, node, kids)))
        for gk in p.ghosts():
            if gk in c.post.st.heap:
                r.append(('%s only grows' % gk[6:], z3.Implies(pr.f(gk, ANY), h.f(gk, ANY))))
        return r
    def mods(c):
        return {x: None for x in list(p.vkey) + list(p.fkey) + p.ghosts()}
    def ghost(c):
        return {VD(t, k): z3.Store(c.post[VD(t, k)], c.args[0], True)}
    return Contract(f, pre, ens, mods, ghost=[ghost], allow_abort=False, assume=assume, cases=cases(p, n))

def is_top(c):
    fr = c.eng.frames[0]
    return fr['ctx'].args is c.args

def root_contract(p):
    n = [x for x in p.g.nodes if x.root][0]
    t = n.name.lower()
    def ens(c):
        node = c.args[0]
        return [('visit %d of the root node is done' % k, c.post.f(VD(t, k), node)) for k in p.vis.get(t, [])]
    return Contract('CCNevaluateAttributes', lambda c: [('the root node', z3.And(c.args[0] != 0, TREE(c.args[0]), c.pre.f(NT, c.args[0]) == p.nt(n.name)))],
                    ens, lambda c: {x: None for x in list(p.vkey) + list(p.fkey) + p.ghosts()}, allow_abort=False,
                    assume=lambda c: (setattr(c.eng, 'ag_terms', [c.args[0], ANY]), [])[1])

def options(p):
    def on_load(eng, st, key, addr):
        a = p.vkey.get(key)
        if a is not None:
            o = owner(eng, st, addr)
            if a.kind != 'cls':
                eng.obligation(st, z3.And(z3.Select(eng.harr(st, DN(a.name)), o), z3.Select(eng.harr(st, FL(a.name)), o)), 'attribute %s is read after its evaluation' % a.name, 'precondition')
            eng.assume(st, z3.Select(eng.harr(st, key), addr) == VAL(a.name)(o))
    def on_store(eng, st, key, addr, v):
        a = p.vkey.get(key)
        if a is not None:
            o = owner(eng, st, addr)
            eng.obligation(st, v == VAL(a.name)(o), 'attribute %s gets the value its equation defines' % a.name, 'assertion')
            if a.kind != 'cls':
                st.heap[DN(a.name)] = z3.Store(eng.harr(st, DN(a.name)), o, True)
        a = p.fkey.get(key)
        if a is not None:
            eng.obligation(st, v != 0, 'attribute %s stays marked as evaluated' % a.name, 'assertion')
            st.heap[FL(a.name)] = z3.Store(eng.harr(st, FL(a.name)), owner(eng, st, addr), True)
    sorts = {x: AIB for x in p.ghosts()}
    return dict(on_load=on_load, on_store=on_store, sorts=sorts, decide=decide, live=False, safety=True)

def builtins(p):
    def never(eng, st, args, rt, hint, n):
        eng.obligation(st, z3.BoolVal(False), 'no access or dispatch error', 'safety')
        return []
    return {f: never for f in p.errors()}

def contracts(p, POST):
    C = eval_contracts(p)
    for t, v in p.vis.items():
        for k in v:
            C['CCNvisit_%s_%d' % (t, k)] = visit_contract(p, p.node[t], k, POST)
    C['CCNevaluateAttributes'] = root_contract(p)
    return C

def infer(g, d, vt):
    """the largest set of facts the visits guarantee (the proof checks it again)"""
    tu = front.load(vt, flags(d))
    p = P(g, d, tu)
    POST = {(t, k): list(p.facts(p.node[t])) for t, v in p.vis.items() for k in v}
    fs = [(t, k) for t, v in p.vis.items() for k in v]
    rounds, changed = 0, True
    when, ran, now = {x: 0 for x in fs}, {}, 0                   # last change of a set, last run of a visit
    while changed and rounds < 20:
        changed = False; rounds += 1
        for (t, k) in fs:
            n = p.node[t]
            uses = [(t, j) for j in p.vis[t] if j < k] + [(u.lower(), j) for ch in n.children for u in g.types(ch.type) for j in p.vis.get(u.lower(), [])]
            if (t, k) in ran and all(when[x] <= ran[(t, k)] for x in uses):
                continue
            now += 1
            ran[(t, k)] = now
            eng = Engine([tu], contracts(p, POST), builtins=builtins(p), opts=options(p))
            eng.mute = 0
            eng.verify('CCNvisit_%s_%d' % (t, k))
            keep = list(POST[(t, k)])
            for s in eng.retstates:
                h = HV(eng, s)
                node = z3.Int('arg_0')
                kids = eng.ag_terms[1:-1]
                def held(ys):
                    if not ys or eng.entails(s.pc, z3.And([p.fact(y, h, node, kids) for y in ys]), 3000):
                        return ys
                    if len(ys) == 1:
                        return []
                    return held(ys[:len(ys) // 2]) + held(ys[len(ys) // 2:])
                keep = held(keep)
            if len(keep) != len(POST[(t, k)]):
                POST[(t, k)] = keep; changed = True
                now += 1; when[(t, k)] = now
    return POST

def unit(g, d, vt, POST):
    if not isinstance(POST, dict):
        why = str(POST)
        def fail(tus):
            raise RuntimeError('the generated code could not be analysed: ' + why)
        return runner.Unit('visit.c generated for grammar %d' % g.seed, [vt], fail, functions=['CCNevaluateAttributes'], flags=flags(d), budget=150)
    def cs(tus):
        return contracts(P(g, d, tus[0]), POST)
    def engine(tus):
        p = P(g, d, tus[0])
        return dict(builtins=builtins(p), opts=options(p))
    fns = ['CCNvisit_%s_%d' % x for x in sorted(POST)] + ['CCNevaluateAttributes']
    return runner.Unit('visit.c generated for grammar %d' % g.seed, [vt], cs, functions=fns, flags=flags(d), engine=engine, budget=150)
