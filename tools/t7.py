import sys,time; sys.path.insert(0,'/verif')
from ccv import runner
import contracts.genprog as G
from gen import spec
import shutil,os
sc='/tmp/w/gp'; os.makedirs(sc,exist_ok=True)
for x in os.listdir(sc):
    if x.startswith('gp_'): shutil.rmtree(sc+'/'+x)
kind=sys.argv[1]; a,b=int(sys.argv[2]),int(sys.argv[3]); kw=eval('dict(%s)'%(sys.argv[4] if len(sys.argv)>4 else ''))
t=time.time()
corpus=[spec.rand_spec(s,**kw) for s in range(a,b)]
us={'ast':G.units_ast,'copy':G.units_copy,'free':G.units_free,'check':G.units_check,'trav':G.units_trav,'sets':lambda *a:G.units_check(*a,what='sets'),'life':lambda *a:G.units_check(*a,what='lifetimes')}.get(kind) 
us=us(sc,corpus,'x') if us else G.units_tables(sc,corpus,'x',kind)
print('gen %.1f'%(time.time()-t),len(us))
n=0;bad=0
for r in runner.prove(us):
    n+=r['discharged']
    if r['status']!='ok' or '-v' in sys.argv:
        bad+=1
        print(r['unit'],r['fn'],r['status'],'%d/%d'%(r['discharged'],r['obligations']),'%.1fs'%r['wall'],r.get('why',''))
        for f in r['failed']: print('    FAIL',f['kind'],f['obligation'],f['detail'][:300])
print(n,'obligations',bad,'bad %.1f'%(time.time()-t))
