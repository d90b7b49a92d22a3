"""C02 strings"""
from ccv import runner
import contracts.c02_str as m
import contracts.bytemem as bm
ID, LEVEL, TITLE = 'C02', 'proof', 'string functions match their documentation'
UNITS = [runner.Unit('palm/src/str.c', ['palm/src/str.c'], m.contracts,
    engine=dict(axioms=bm.AXIOMS, builtins=bm.BUILTINS, opts=dict(bm.OPTS)))]
NOTE = 'Memory safety, exact result and frame of 17 functions (copy, bounded copy, sub-string, concatenation, comparisons, prefix/suffix/containment, length, case conversion) proved for all strings; the variadic STRcatn/STRfmt/STRitoa, STRtok and STRsubstToken only compared with a reference on bounded inputs. Trusted: libc string contracts, the allocator contract (C18), strings shorter than 2^31-16, our VC generator and z3.'
TRUSTED = ['libc: strlen strcpy strncpy strcat strcmp strncmp strstr memcpy tolower toupper (contracts in contracts/bytemem.py)', 'MEMmalloc: fresh block (proved in C18)']
ASSUMPTIONS = ['strings are shorter than 2^31-16 and lie inside one live block', 'STRncpy maxlen >= 0, STRsubStr start >= 0 and string not NULL', 'blocks are never reused']
BOUNDED = ['STRcatn, STRfmt, STRitoa (variadic), STRtok, STRsubstToken: exhaustive over strings up to length 3 over 4 characters, plus random strings to length 3000']
SAMPLES = ['STRsuffix("A,","aA,") -> true', 'STRsubStr("abc",2,-3) -> ""']
def falsify(F, tier):
    exe = runner.cc(F.scratch + '/c02', [runner.VERIF + '/harness/c02.c'] + [runner.REPO + '/palm/src/' + f for f in ('memory.c', 'str.c', 'ctinfo.c', 'dbug.c')])
    runner.harness(F, exe, [runner.SEED, 3000 if tier == 'quick' else 60000, 3 if tier == 'quick' else 4])
