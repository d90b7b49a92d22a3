"""C12 generated check"""
from ccv import runner
import contracts.genprog as g
from gen import spec, build
ID, TITLE = 'C12', 'the generated tree check reports exactly the violations'
TECHNIQUE = 'contracts on the generated C, derived from the specification and proved for every tree (ccv VCs, z3/cvc5), per specification of a corpus regenerated by the current cocogen'
LEVEL = 'translation_validation'
NOTE = 'For each specification of a corpus, regenerated on every run, the generated check function of every node type is proved (for every tree, action number and heap) to report an error exactly when the node violates the specification at that action or a sub-tree does, and to change nothing; whole trees follow by induction through the dispatch table and C03. Concrete: random conforming and perturbed trees against an oracle. Trusted: our VC generator, z3, the corpus.'
TRUSTED = ['CTI with CTI_ERROR counts one error (C17)', 'TRAVchildren/TRAVopt on children: the induction hypothesis (errors below, tree unchanged; C03)', 'CCNgetCurrentActionId yields the number of the running action (C04)']
ASSUMPTIONS = ['trees are finite', 'children are nodes of declared types', 'the corpus of specifications stands for all specifications: random ones from a seeded generator (gen/spec.py) that covers every construct; per specification the proof is for all inputs']
BOUNDED = ['random specifications; trees meant to conform and perturbed ones, at every action number']
SAMPLES = ['CHKbeta: "a violation is reported: the presence of child next", "nothing is reported without a violation"']

def quick():
    return runner.TIER == 'quick'
def units(scratch):
    return g.units_check(scratch, corpus(), 'c12')
def corpus():
    return [spec.rand_spec(12000 + i) for i in range(16 if quick() else 150)] + [f(12070 + i) for i in range(1 if quick() else 8) for f in (spec.grid_lifetimes, spec.grid_children)]
def falsify(F, tier):
    more = [spec.rand_spec(12100 + i) for i in range(32 if quick() else 300)] + [f(12085 + i) for i in range(2 if quick() else 10) for f in (spec.grid_lifetimes, spec.grid_children)]
    build.Campaign(F, [spec.grid_lifetimes(12095 + i) for i in range(3 if quick() else 12)], ['life'], 1500).run()
    build.Campaign(F, corpus() + more, ['check'], 150 if quick() else 500).run()
