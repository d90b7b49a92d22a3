import sys,importlib
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from ccv import runner, front, solve
from ccv.exec import *
p=importlib.import_module('props.'+sys.argv[1]); fn=sys.argv[2]; lab=sys.argv[3]
u=p.UNITS[0]
import os
tus=[front.load(os.path.join('/repo',s),u.flags) for s in u.sources]
C=u.contracts(); eng=Engine(tus,C,**u.engine); import time; eng.deadline=time.time()+200
for ob in eng.verify(fn):
    if lab in ob.label:
        print('=====',ob.label); 
        for h in ob.hyps: print('H',str(h).replace('\n',' ')[:400])
        print('G',ob.goal)
        break
