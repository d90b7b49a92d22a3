"""C07 node sets"""
from ccv import runner
import contracts.genprog as g
from gen import spec, build
ID, TITLE = 'C07', 'node set expressions denote the mathematical sets'
TECHNIQUE = 'contracts on the generated C, derived from the specification and proved for every tree (ccv VCs, z3/cvc5), per specification of a corpus regenerated by the current cocogen'
LEVEL = 'translation_validation'
NOTE = 'For each specification of a corpus with nested set expressions and references, regenerated on every run: the membership tests of the generated check (children typed by a node set, for every node) and the handler tables of all traversals are proved equal to the sets given by reading | & - as union, intersection and difference. Concrete: all node types under all sets; sets that denote no node. Trusted: our VC generator, z3, the corpus.'
TRUSTED = ['as C12, C14']
ASSUMPTIONS = ['children typed by a single node conform (isolated from C12)', 'the corpus of specifications stands for all specifications: random ones from a seeded generator (gen/spec.py) that covers every construct; per specification the proof is for all inputs']
BOUNDED = ['every node type as child and under every traversal of random specifications', 'specifications with a set that denotes no node']
SAMPLES = ['nodeset s = {a, b} - (t & {b}) -> TypeIss(n) iff n is a']

def empty_specs(n, base):
    """specifications in which one set denotes no node: the set must come out without members"""
    import random
    out = []
    for i in range(n):
        sp = spec.rand_spec(base + i, lifetimes=False, mand=False)
        rng = random.Random(base + i)
        names = [x.name for x in sp.nodes]
        for _ in range(200):
            e = spec.rand_expr(rng, names, [x.name for x in sp.nodesets], rng.randint(1, 3))
            if not spec.set_eval(sp, e):
                break
        else:
            continue
        sp.nodesets.append(spec.O(name='EmptySet', expr=e, attrs=[]))
        nd = rng.choice([x for x in sp.nodes if x.children] or [None])
        if nd:
            rng.choice(nd.children).type = 'EmptySet'
        out.append(sp)
    return out

def empty_travs(F, n):
    """a traversal whose node set denotes no node is rejected (without one it would handle all nodes)"""
    import random
    cg = build.cocogen(F.scratch)
    for i in range(n):
        sp = spec.rand_spec(8300 + i, lifetimes=False)
        rng = random.Random(8300 + i)
        names = [x.name for x in sp.nodes]
        es = [spec.rand_expr(rng, names, [x.name for x in sp.nodesets], rng.randint(1, 3)) for _ in range(200)]
        es = [e for e in es if not spec.set_eval(sp, e)]
        if not sp.travs or not es:
            continue
        rng.choice(sp.travs).nodes = es[0]
        text = spec.to_ccn(sp, i)
        rc, so, se = build.generate(cg, '%s/empty%d' % (F.scratch, i), text)
        F.cases += 1
        F.coverage['empty'] = F.coverage.get('empty', 0) + 1
        if rc == 0:
            F.violation('empty-accepted', 'a traversal whose node set denotes no node is accepted (it then handles all nodes)\n' + text)
        elif rc != 1 or not se.strip():
            F.violation('empty-crash', 'cocogen ended with %s\n%s\n%s' % (rc, text, se[-800:]))

def quick():
    return runner.TIER == 'quick'
def units(scratch):
    return g.units_check(scratch, corpus(), 'c07', 'sets') + g.units_tables(scratch, corpus(), 'c07', 'handled')
def corpus():
    return [spec.rand_spec(7000 + i, lifetimes=False, mand=False, nn=[4, 7, 10, 14][i % 4]) for i in range(24 if quick() else 200)]
def falsify(F, tier):
    more = [spec.rand_spec(7500 + i, lifetimes=False, mand=False) for i in range(24 if quick() else 300)]
    build.Campaign(F, corpus() + more, ['sets'], 1).run()
    build.Campaign(F, empty_specs(12 if quick() else 120, 7900), ['sets'], 1).run()
    empty_travs(F, 24 if quick() else 300)
