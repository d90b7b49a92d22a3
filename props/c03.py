"""C03 traversals"""
from ccv import runner
import contracts.trav as m
import contracts.genprog as g
from gen import spec, build
ID, LEVEL, TITLE = 'C03', 'proof', 'traversals dispatch to the right handler, in order, on a disciplined stack'
def corpus():
    return [spec.rand_spec(3900 + i, lifetimes=bool(i % 2)) for i in range(10 if runner.TIER == 'quick' else 80)] + [spec.grid_travs(3950 + i) for i in range(2 if runner.TIER == 'quick' else 10)]
def units(scratch):
    return [m.unit()] + g.units_trav(scratch, corpus(), 'c03')
NOTE = 'Dispatch by traversal and node type, one visit per non-NULL child in declaration order with results stored, data init first and release last, stack restored, copy/free/pass entry points: proved for every tree, table and handler behaviour that respects the contract of handlers; the generated per-child entry points, travdata constructors/destructors and hook tables proved per specification of a corpus regenerated by the current cocogen. Concrete: generated programs against a reference walk. Trusted: handler contract, our VC generator and z3.'
TRUSTED = ['handlers, init and release functions leave the traversal stack as they found it (proved for everything the runtime offers them), do not change the type of existing nodes and do not write the child slots of a node whose children are being traversed',
           'MEMmalloc/MEMfree: fresh block / released block (proved in C18)', 'abort, err do not return']
ASSUMPTIONS = ['the generated dispatch table has a row for every traversal and an entry for every node type (ground obligations on the generated tables: C07, C14)', 'node positions and traversal types are in range', 'child slots of a node are one block of num_children slots']
BOUNDED = ['the generated vtables together with the runtime: random specifications, trees and handler behaviours against a reference walk']
SAMPLES = ['spec with 5 nodes, traversal T on {a, b}: on tree a(b, NULL, b(c)) -> handlers run on a, b, b', 'nested TRAVstart inside a handler restores the outer traversal']
def falsify(F, tier):
    n = 40 if tier == 'quick' else 400
    build.Campaign(F, [spec.rand_spec(3000 + s, lifetimes=False) for s in range(n)] + [spec.grid_travs(3960 + s) for s in range(n // 10)] + [spec.grid_children(3980 + s) for s in range(n // 10)], ['trav'], 120 if tier == 'quick' else 400).run()
