"""C05 phase driver"""
from ccv import runner
import contracts.pd as m
ID, LEVEL, TITLE = 'C05', 'proof', 'cycles repeat until no notification, within the bound'
UNITS = m.units(5)
NOTE = 'Rounds, bound, propagation of notifications to enclosing cycles and independent nested counting proved for every structure and behaviour; concrete: random nested cycles against a reference interpreter. Trusted: user code contract, our VC generator and z3.'
TRUSTED = ['code of actions, gates and the generated check uses only the documented API (signals, configuration), does not change the breakpoint and starts no nested run', 'TRAVstart/PASSstart run the traversal/pass they are given (C03)', 'CTIabortCompilation does not return, CTIabortOnError returns only without errors (C17)', 'STReqci: case-insensitive equality (C02)', 'exit does not return', 'CCNgetActionFromID yields the declared action of an id']
ASSUMPTIONS = ['action tables are terminated and acyclic', 'action numbers do not overflow', 'termination of cycles is not claimed when actions keep raising the maximum']
SAMPLES = ['cycle{a cycle{b}} with b notifying in its first round -> outer cycle runs a second round']
def falsify(F, tier):
    m.falsify(F, tier, 5)
