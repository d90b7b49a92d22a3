import sys, time, importlib
sys.path.insert(0,'/verif')
from ccv import runner
p=importlib.import_module('props.'+sys.argv[1])
import tempfile
units=p.units(tempfile.mkdtemp()) if hasattr(p,'units') else p.UNITS
only=[a for a in sys.argv[2:] if a[0]!='-'] or None
t=time.time()
for r in runner.prove(units, only=only):
    print(r['fn'],r['status'],'%d/%d'%(r['discharged'],r['obligations']),'%.1fs'%r['wall'],r.get('why',''), r.get('attempts'))
    for f in r['failed']: print('    FAIL',f['kind'],f['obligation'],f['detail'][:100])
    if r['status']!='ok' or '-v' in sys.argv:
        for l in r['loops']: print('     inv',l)
print('%.1f'%(time.time()-t))
