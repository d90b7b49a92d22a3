"""C13 lifetime ranges"""
from ccv import runner
import contracts.genprog as g
from gen import spec, build
ID, TITLE = 'C13', 'lifetime ranges cover exactly the actions between their targets'
TECHNIQUE = 'contracts on the generated C, derived from the specification and proved for every tree (ccv VCs, z3/cvc5), per specification of a corpus regenerated by the current cocogen'
LEVEL = 'translation_validation'
NOTE = 'For each specification of a corpus with many lifetimes and nested, repeated phases, regenerated on every run, the presence part of every generated check function is proved for every action number to be the interval the documentation gives for the range (interval computed from the specification alone). The numbering itself is compared with the running phase driver (concrete) and proved in C04. Trusted: our VC generator, z3, the corpus.'
TRUSTED = ['as C12']
ASSUMPTIONS = ['child types conform and sub-trees are without errors (isolated from C12)', 'the corpus of specifications stands for all specifications: random ones from a seeded generator (gen/spec.py) that covers every construct; per specification the proof is for all inputs']
BOUNDED = ['whole compilations with the real phase driver: action numbers seen by every pass and traversal', 'random trees at every action number']
SAMPLES = ['child left {mandatory [cyc.infr -> fold)} -> reported missing exactly for 4 <= action < 5']

def quick():
    return runner.TIER == 'quick'
def units(scratch):
    return g.units_check(scratch, corpus(), 'c13', 'lifetimes')
def corpus():
    return [spec.rand_spec(13000 + i, nact=6 + i % 9) for i in range(20 if quick() else 200)] + [spec.grid_lifetimes(13070 + i, 14) for i in range(1 if quick() else 10)]
def falsify(F, tier):
    more = [spec.rand_spec(13100 + i, nact=4 + i % 10) for i in range(24 if quick() else 300)] + [spec.grid_lifetimes(13085 + i, 12) for i in range(3 if quick() else 10)]
    build.Campaign(F, corpus() + more, ['life'], 120 if quick() else 500).run()
    build.Campaign(F, [spec.rand_spec(13500 + i, lifetimes=False, nact=12) for i in range(16 if quick() else 150)], ['run'], 60, True).run()
