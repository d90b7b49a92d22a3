"""C06 phase driver"""
from ccv import runner
import contracts.pd as m
ID, LEVEL, TITLE = 'C06', 'proof', 'errors and breakpoints stop at the right place'
UNITS = m.units(6)
NOTE = 'Stops after action errors, at the end of a phase with phase errors, after failed checks and at breakpoints (dotted, any case, by number) proved for every structure and behaviour; concrete: random structures, errors and breakpoints against a reference interpreter. Trusted: user code contract, our VC generator and z3.'
TRUSTED = ['code of actions, gates and the generated check uses only the documented API (signals, configuration), does not change the breakpoint and starts no nested run', 'TRAVstart/PASSstart run the traversal/pass they are given (C03)', 'CTIabortCompilation does not return, CTIabortOnError returns only without errors (C17)', 'STReqci: case-insensitive equality (C02)', 'exit does not return', 'CCNgetActionFromID yields the declared action of an id']
ASSUMPTIONS = ['action tables are terminated and acyclic', 'action numbers do not overflow', 'termination of cycles is not claimed when actions keep raising the maximum']
SAMPLES = ['breakpoint ROOT.P1.A2 -> handler called with the tree after a2, success exit']
def falsify(F, tier):
    m.falsify(F, tier, 6)
