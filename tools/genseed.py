from seed import *
import subprocess,os,shutil
GD='''#!/bin/bash
# generates a compiler from spec.ccn with the cocogen of the tree it runs in, links it with demo.c and compares what it prints
set -e
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
cp "$here/spec.ccn" "$t/spec.ccn"
(cd "$t" && timeout 60 "$OLDPWD/_build/main/cocogen/cocogen" --gen-dir out spec.ccn > cg.log 2>&1) || { tail -3 "$t/cg.log"; echo "cocogen failed"; exit 1; }
gcc -w -O0 -g -fsanitize=address -DNDEBUG -I "$t/out" -I palm/include -I copra "$here/demo.c" "$t"/out/*.c copra/src/*.c palm/src/*.c -o "$t/demo" -lm
cd "$t"
ASAN_OPTIONS=%s timeout 60 ./demo > out.txt 2> err.txt || true
diff "$here/expected.txt" out.txt
'''
CGD='''#!/bin/bash
# what the cocogen of the tree it runs in says about spec.ccn
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
cp "$here/spec.ccn" "$t/spec.ccn"
cg="$PWD/_build/main/cocogen/cocogen"
cd "$t"
timeout 60 "$cg" --gen-dir out spec.ccn > cg.log 2> err.log; rc=$?
%s
'''
DH='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ccn/ccn.h"
#include "ccn/dynamic_core.h"
#include "ccn/phase_driver.h"
#include "ccngen/ast.h"
#include "ccngen/trav.h"
#include "palm/str.h"
#include "palm/ctinfo.h"
#include "palm/memory.h"
void BreakpointHandler(node_st *n) { }
'''
def gs(id,prop,edits,needs,breaks,spec,main,leaks=False,show=True):
    """main: C text; expected output is taken from the unchanged tree"""
    d='/tmp/w/gs'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    demo=DH+main
    gd=GD%('detect_leaks=1:exitcode=23' if leaks else 'detect_leaks=0')
    if leaks: gd=gd.replace('./demo > out.txt 2> err.txt || true','./demo > out.txt 2> err.txt || { tail -5 err.txt; exit 1; }')
    for n,t in {'spec.ccn':spec,'demo.c':demo,'expected.txt':'','demo.sh':gd}.items(): open(d+'/'+n,'w').write(t)
    sh('bash /opt/vp/build.sh')
    r=sh("cd /repo && bash %s/demo.sh"%d)
    exp=''.join(l[2:]+'\n' for l in r.stdout.split('\n') if l.startswith('> '))
    if show: print(id,'expected:',exp,'|',r.stderr[-600:], r.stdout[-300:] if not exp else '')
    seed(id,prop,edits,needs,breaks,gd,{'spec.ccn':spec,'demo.c':demo,'expected.txt':exp})
