"""C01 hash table"""
from ccv import runner
import contracts.c01_hash_table as m
ID, LEVEL, TITLE = 'C01', 'proof', 'hash tables are exact finite maps'
_UNITS = [runner.Unit('palm/src/hash_table.c', ['palm/src/hash_table.c'], m.contracts,
    engine=dict(indirect=m.indirect, axioms=m.AXIOMS, templates=m.templates,
                builtins={'MEMmalloc': m.b_malloc, 'malloc': m.b_malloc, 'calloc': m.b_calloc, 'MEMfree': m.b_free, 'free': m.b_free},
                opts={'live': True}))]
def units(scratch):
    return _UNITS + [m.lemma_unit(scratch)]
NOTE = 'All map operations and iteration are proved for every heap, table size, key set and compatible hash function; so are fold, deletion and the three named tables; copies are only tested on bounded histories. Trusted: allocator, client functions pure, our VC generator and z3.'
TRUSTED = ['malloc/calloc/free via MEMmalloc/MEMfree: fresh disjoint non-null object, calloc zeroes', 'client hash and equality functions: pure, equality an equivalence compatible with the hash',
           'client map functions: pure with respect to the table', 'StringHash is compatible with STReq (tested; the pointer and number hashes are proved compatible)']
ASSUMPTIONS = ['fewer than 2^60 entries and buckets', 'at least one bucket']
BOUNDED = ['HTcpy, HTdeep_copy (bounded histories)', 'StringHash is compatible with STReq (random strings)']
SAMPLES = ['size=2 hash#0 ins 0;ins 1;rem 0;ins 0; -> count 2, lookups agree with the reference map']
def falsify(F, tier):
    exe = runner.cc(F.scratch + '/c01', [runner.VERIF + '/harness/c01.c'] + [runner.REPO + '/palm/src/' + f for f in ('hash_table.c', 'memory.c', 'str.c', 'ctinfo.c', 'dbug.c')])
    runner.harness(F, exe, [runner.SEED, 3000 if tier == 'quick' else 60000, 5 if tier == 'quick' else 6])
