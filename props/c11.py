"""C11 generated constructors"""
from ccv import runner
import contracts.genprog as g
from gen import spec, build
ID, TITLE = 'C11', 'generated constructors initialise every part of a node'
TECHNIQUE = 'contracts on the generated C, derived from the specification and proved for every tree (ccv VCs, z3/cvc5), per specification of a corpus regenerated by the current cocogen'
LEVEL = 'translation_validation'
NOTE = 'For each specification of a corpus, regenerated on every run, every generated constructor is proved (for all arguments and heaps) to give a fresh node and data block whose every child, attribute, type, arity and position has the documented value, with accessors that address distinct locations and child accessor j = child slot j. Concrete: random trees built and read back under AddressSanitizer. Trusted: our VC generator, z3, the corpus.'
TRUSTED = ['MEMmalloc: a fresh block of at least the requested size (C18)']
ASSUMPTIONS = ['floating point zero and pointers NULL/0 are represented as zero', 'the corpus of specifications stands for all specifications: random ones from a seeded generator (gen/spec.py) that covers every construct; per specification the proof is for all inputs']
BOUNDED = ['random specifications: constructor calls, reads through every accessor, single-field writes']
SAMPLES = ['ASTalpha(left, nm, col): "attribute lnk is the zero of its type", "child right is NULL", "fields nm and lnk do not overlap"']

def quick():
    return runner.TIER == 'quick'
def units(scratch):
    return g.units_ast(scratch, corpus(), 'c11')
def corpus():
    return [spec.rand_spec(11000 + i, lifetimes=bool(i % 2)) for i in range(24 if quick() else 150)] + [f(11070 + i) for i in range(1 if quick() else 6) for f in (spec.grid_children, spec.grid_attrs)]
def falsify(F, tier):
    more = [spec.rand_spec(11100 + i) for i in range(32 if quick() else 300)] + [f(11085 + i) for i in range(2 if quick() else 10) for f in (spec.grid_children, spec.grid_attrs)]
    build.Campaign(F, corpus() + more, ['ctor'], 120 if quick() else 500).run()
