"""C18 memory wrappers"""
from ccv import runner
import contracts.c18_mem as m
import contracts.c17_cti as cti
import contracts.bytemem as bm
ID, LEVEL, TITLE = 'C18', 'proof', 'memory wrappers never hand out NULL and keep contents'
UNITS = [runner.Unit('palm/src/memory.c', ['palm/src/memory.c'], m.contracts,
    engine=dict(axioms=bm.AXIOMS, builtins=m.BUILTINS, opts=dict(bm.OPTS))), cti.unit(['CTIabortOutOfMemory', 'CTIabortCompilation'])]
NOTE = 'All four wrappers and the out-of-memory stop proved for every size and heap, with malloc/realloc free to fail at every call; concrete fault injection replays. Trusted: C allocator and memcpy contracts, our VC generator and z3. Blocks are never reused in the model.'
TRUSTED = ['malloc/calloc/realloc: NULL or a fresh block, realloc keeps the common prefix', 'free, memcpy', 'exit does not return']
ASSUMPTIONS = ['sizes below 2^62', 'blocks are never reused (a block resized in place is treated as moved)']
SAMPLES = ['realloc block of 10 to 0x80000000 bytes with a failing allocator -> failure exit with message']
def falsify(F, tier):
    exe = runner.cc(F.scratch + '/c18', [runner.VERIF + '/harness/c18.c'] + [runner.REPO + '/palm/src/' + f for f in ('memory.c', 'str.c', 'ctinfo.c', 'dbug.c')],
                    link=['-Wl,--wrap=malloc,--wrap=realloc,--wrap=free,--wrap=calloc'])
    runner.harness(F, exe, [runner.SEED, 6000 if tier == 'quick' else 100000])
