"""C17 diagnostics"""
from ccv import runner
import contracts.c17_cti as m
ID, LEVEL, TITLE = 'C17', 'proof', 'diagnostics are counted exactly and decide the exit status'
UNITS = [m.unit()]
NOTE = 'Counters, stop conditions, failure status, completeness of the buffered message and of its printing (only blanks become line breaks, every part is printed) and memory safety proved for all messages and sequences of calls; the text of headers and positions is only compared on bounded cases. Trusted: vsnprintf, strtok, strlen, fprintf, exit contracts, our VC generator and z3.'
TRUSTED = ['vsnprintf: writes the formatted message cut at the size, returns its full length (no encoding error)', 'strtok: next part up to a separator', 'fprintf prints its string arguments', 'exit does not return', 'MEMmalloc: fresh block (proved in C18)']
ASSUMPTIONS = ['messages shorter than 2^31-64', 'counters do not overflow', 'positions are readable records']
BOUNDED = ['header and position text (PrintInfo layout): random messages and positions']
SAMPLES = ['message of 119 y characters, type error -> printed completely', '256 errors -> CTIabortOnError ends with failure']
def falsify(F, tier):
    exe = runner.cc(F.scratch + '/c17', [runner.VERIF + '/harness/c17.c'] + [runner.REPO + '/palm/src/' + f for f in ('memory.c', 'str.c', 'ctinfo.c', 'dbug.c')])
    runner.harness(F, exe, [runner.SEED, 8000 if tier == 'quick' else 80000])
