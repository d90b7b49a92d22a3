"""C10 generated free"""
from ccv import runner
import contracts.genprog as g
from gen import spec, build
ID, TITLE = 'C10', 'generated frees release a tree exactly once and completely'
TECHNIQUE = 'contracts on the generated C, derived from the specification and proved for every tree (ccv VCs, z3/cvc5), per specification of a corpus regenerated by the current cocogen'
LEVEL = 'translation_validation'
NOTE = 'For each specification of a corpus, regenerated on every run, the generated free function of every node type is proved (for every tree and heap) to release the node, its data, file name and strings and the sub-trees of its children exactly once, nothing else, with no use after release, and to return NULL; whole trees follow by induction through the dispatch table and C03. Concrete: random trees under an allocation ledger and AddressSanitizer. Trusted: our VC generator, z3, the corpus.'
TRUSTED = ['TRAVchildren/TRAVopt on children: the induction hypothesis (each sub-tree released, its slot becomes the result NULL; C03)', 'MEMfree: releases the block, NULL is harmless (C18)']
ASSUMPTIONS = ['the tree owns its blocks: sub-trees and own blocks are disjoint (trees built by the constructors)', 'trees are finite', 'the corpus of specifications stands for all specifications: random ones from a seeded generator (gen/spec.py) that covers every construct; per specification the proof is for all inputs']
BOUNDED = ['random specifications, random trees freed under an allocation ledger']
SAMPLES = ['DELalpha: "its data is released", "no other block is released or left behind"']

def quick():
    return runner.TIER == 'quick'
def units(scratch):
    return g.units_free(scratch, corpus(), 'c10')
def corpus():
    return [spec.rand_spec(10000 + i, lifetimes=bool(i % 2)) for i in range(16 if quick() else 100)] + [f(10070 + i) for i in range(1 if quick() else 6) for f in (spec.grid_children, spec.grid_attrs)]
def falsify(F, tier):
    more = [spec.rand_spec(10100 + i) for i in range(32 if quick() else 300)] + [f(10085 + i) for i in range(2 if quick() else 10) for f in (spec.grid_children, spec.grid_attrs)]
    build.Campaign(F, corpus() + more, ['free'], 120 if quick() else 500).run()
