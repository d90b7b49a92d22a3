"""usage: from seed import seed"""
import os, subprocess, json, sys
def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True)
def seed(id, prop, edits, needs, breaks, demo_sh, files={}, test=True, check=True):
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    assert sh('git -C /repo status --porcelain').stdout.strip()=='', 'repo dirty'
    for (f,old,new) in edits:
        p='/repo/'+f; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    diff=sh('git -C /repo diff').stdout
    sh('git -C /repo checkout -- .')
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write(demo_sh); os.chmod(d+'/demo.sh',0o755)
    for n,t in files.items(): open(d+'/'+n,'w').write(t)
    r0=sh('bash /opt/vp/build.sh && cd /repo && bash %s/demo.sh'%d)
    assert sh('git -C /repo apply %s/patch.diff'%d).returncode==0
    out=[]
    try:
        b=sh('bash /opt/vp/build.sh')
        out.append('build %d'%b.returncode)
        r1=sh('cd /repo && bash %s/demo.sh'%d)
        if test:
            t=sh('bash /opt/vp/test.sh /tmp/w/t.json')
            B=json.load(open('/opt/vp/BASELINE.json'))['stable']; T=json.load(open('/tmp/w/t.json'))['passed']
            out.append('missing tests: %s'%[x for x in B if x not in T])
        if check:
            c=sh('cd /verif && python3-vt check.py %s'%prop)
            out.append('check rc=%d\n%s'%(c.returncode,c.stdout[:1500]))
    finally:
        sh('git -C /repo checkout -- .')
    print('==',id,'demo base',r0.returncode,'patched',r1.returncode, *out)
    if r0.returncode or not r1.returncode: print(r0.stdout[-500:],r0.stderr[-500:],r1.stdout[-300:],r1.stderr[-500:])
    sys.stdout.flush()
PALM='''#!/bin/bash
# builds the demonstration against the palm library of the tree it runs in
set -e
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
gcc -w -O1 -g -fsanitize=address -DNDEBUG -I palm/include "$here/demo.c" palm/src/*.c -o "$t/demo"
cd "$t"; ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
