"""C14 automatic traversal"""
from ccv import runner
import contracts.genprog as g
from gen import spec, build
ID, TITLE = 'C14', 'a traversal never skips a node it handles'
TECHNIQUE = 'contracts on the generated C, derived from the specification and proved for every tree (ccv VCs, z3/cvc5), per specification of a corpus regenerated by the current cocogen'
LEVEL = 'translation_validation'
NOTE = 'For each traversal of each specification of a corpus, regenerated on every run, the dispatch table is proved closed: a node type is left out (TRAVnop) only if none of its possible child types is handled and all of them are left out as well - so by induction nothing handled can occur below. TRAVchildren, which the other types get, visits every child (proved, C03). Concrete: random trees, handlers that traverse their children. Trusted: our extraction, z3, the corpus.'
TRUSTED = ['TRAVchildren visits every non-NULL child (proved in C03)']
ASSUMPTIONS = ['trees conform to the child types of the specification', 'handlers traverse their children', 'the corpus of specifications stands for all specifications: random ones from a seeded generator (gen/spec.py) that covers every construct; per specification the proof is for all inputs']
BOUNDED = ['random specifications with long chains and cycles of node types, random trees against a reference walk']
SAMPLES = ['"scan: gam is left out only if nothing handled can occur below it"']

def quick():
    return runner.TIER == 'quick'
def units(scratch):
    return g.units_tables(scratch, corpus(), 'c14', 'closure')
def corpus():
    return [spec.rand_spec(14000 + i, lifetimes=bool(i % 2), sparse=True, nn=[4, 8, 12, 15][i % 4], nact=8) for i in range(36 if quick() else 400)] + [spec.grid_reach(14060 + i, [8, 11, 14, 18][i % 4]) for i in range(12 if quick() else 60)]
def falsify(F, tier):
    more = [spec.rand_spec(14500 + i, lifetimes=False) for i in range(12 if quick() else 200)] + [spec.grid_reach(14460 + i, [8, 11, 14, 18][i % 4]) for i in range(8 if quick() else 40)]
    build.Campaign(F, corpus()[:28 if quick() else 400] + more, ['trav'], 120 if quick() else 500, key_ok=lambda k: k not in ('slots', 'result', 'tree', 'stack')).run()
