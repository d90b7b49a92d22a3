"""C04 phase driver"""
from ccv import runner
import contracts.pd as m
ID, LEVEL, TITLE = 'C04', 'proof', 'phases run the declared actions in order, numbered by position'
UNITS = m.units(4)
NOTE = 'Dispatch order, gates, threading of the tree, tree check placement, final free and action numbers proved for every declared structure and every behaviour of actions; concrete: random structures against a reference interpreter. Trusted: user code contract, our VC generator and z3.'
TRUSTED = ['code of actions, gates and the generated check uses only the documented API (signals, configuration), does not change the breakpoint and starts no nested run', 'TRAVstart/PASSstart run the traversal/pass they are given (C03)', 'CTIabortCompilation does not return, CTIabortOnError returns only without errors (C17)', 'STReqci: case-insensitive equality (C02)', 'exit does not return', 'CCNgetActionFromID yields the declared action of an id']
ASSUMPTIONS = ['action tables are terminated and acyclic', 'action numbers do not overflow', 'termination of cycles is not claimed when actions keep raising the maximum']
SAMPLES = ['phase driver structure {a1 g{a2 a3} cycle{a4}} with gate false -> a4 runs as action 6']
def falsify(F, tier):
    m.falsify(F, tier, 4)
