"""C09 generated copy"""
from ccv import runner
import contracts.genprog as g
from gen import spec, build
ID, TITLE = 'C09', 'generated copies are exact and deep'
TECHNIQUE = 'contracts on the generated C, derived from the specification and proved for every tree (ccv VCs, z3/cvc5), per specification of a corpus regenerated by the current cocogen'
LEVEL = 'translation_validation'
NOTE = 'For each specification of a corpus, regenerated on every run, the generated copy function of every node type is proved (for every tree and every heap) to give a fresh node with every child, attribute, string, link and position carried over and nothing shared or modified; all trees follow by induction over the tree through the dispatch table (ground obligations) and C03. Concrete: random trees copied, changed and freed under AddressSanitizer. Trusted: our VC generator, z3, the corpus.'
TRUSTED = ['STRcpy: fresh equal string, NULL for NULL (C02)', 'TRAVopt/TRAVdo/CCNcopy of a child: the induction hypothesis (a fresh copy; C03 for the dispatch)', 'MEMmalloc: fresh block (C18)']
ASSUMPTIONS = ['trees are finite (termination of the recursion)', 'children, strings and data of a node are live, distinct blocks', 'the corpus of specifications stands for all specifications: random ones from a seeded generator (gen/spec.py) that covers every construct; per specification the proof is for all inputs']
BOUNDED = ['random specifications, random trees: copy, change copy, free either, compare (AddressSanitizer, allocation ledger)']
SAMPLES = ['node Alpha {children {exprs left, beta right}, attributes {string nm, Alpha lnk}} -> CPYalpha: 12 obligations incl. "child left is a copy of the child"']

def quick():
    return runner.TIER == 'quick'
def units(scratch):
    return g.units_copy(scratch, corpus(), 'c09')
def corpus():
    return [spec.rand_spec(9000 + i, lifetimes=bool(i % 2), wide=False, nn=[2, 3, 4, 5, 6][i % 5]) for i in range(12 if quick() else 60)] + [f(9070 + i) for i in range(1 if quick() else 6) for f in (spec.grid_children, lambda s: spec.grid_attrs(s, 8))]
def falsify(F, tier):
    more = [spec.rand_spec(9100 + i) for i in range(32 if quick() else 300)] + [f(9060 + i) for i in range(2 if quick() else 10) for f in (spec.grid_children, spec.grid_attrs)]
    build.Campaign(F, corpus() + more, ['copy'], 120 if quick() else 500).run()
