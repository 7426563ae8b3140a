#!/usr/bin/env python3
"""mk.py defs.py [ids...]: build seeded bug dirs, verify them, run the check of their property."""
import sys, os, subprocess, json, shutil, importlib.util, filecmp
SEED='/verif/seeded'; 
spec=importlib.util.spec_from_file_location('defs',sys.argv[1]); defs=importlib.util.module_from_spec(spec); spec.loader.exec_module(defs)
want=sys.argv[2:]
W='/tmp/seedrepo'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def fresh():
    if not os.path.exists(W): sh('git clone -q /repo '+W)
    sh('cd %s && git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq'%W)
PRE='''#include <complex>
#include <cmath>
#include <cstdio>
#include <cstdint>
#include <vector>
#include <random>
#include <numbers>
%s
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %%s\\n", #c); return 1; } } while (0)
'''
for b in defs.BUGS:
    if want and b['id'] not in want: continue
    fresh()
    for e in b['edits']:
        f,old,new=e
        p=W+('/' if f.startswith('extra/') else '/src/neo/')+f; s=open(p).read()
        assert s.count(old)>=1,(b['id'],f,'not found')
        assert s.count(old)==1 or b.get('multi'),(b['id'],f,'ambiguous',s.count(old))
        open(p,'w').write(s.replace(old,new))
    d=SEED+'/'+b['id']; os.makedirs(d,exist_ok=True)
    diff=sh('cd %s && git diff'%W).stdout
    open(d+'/patch.diff','w').write(diff)
    inc='\n'.join('#include <%s>'%i for i in b['inc'])
    open(d+'/demo.cpp','w').write(PRE%inc+b['demo'])
    if b.get('shim',True): 
        shutil.rmtree(d+'/mdspan',ignore_errors=True); shutil.copytree('/verif/shim/mdspan',d+'/mdspan')
    for x in b.get('stubs',[]):
        shutil.rmtree(d+'/'+x,ignore_errors=True); shutil.copytree('/verif/shim/'+x,d+'/'+x)
    if 'py' in b: open(d+'/demo.py','w').write(b['py'])
    flags=b.get('flags','-O1 -march=x86-64-v3 -DNEO_HAS_XSIMD=1')
    open(d+'/demo.sh','w').write('''#!/bin/bash
# cwd: the repository. Exit 0: the property holds for this input.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
%sclang++-18 -std=c++20 -w %s -Isrc -I"$D" "$D/demo.cpp" -o "$T/demo" || exit 3
%s
'''%(b.get('pre',''),flags,'timeout 200 python3-vt "$D/demo.py" "$T/demo" "$T"' if 'py' in b else 'timeout 200 "$T/demo"'))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['what']},open(d+'/meta.json','w'),indent=1)
    r0=sh('cd /repo && bash %s/demo.sh'%d); r1=sh('cd %s && bash %s/demo.sh'%(W,d))
    # stable tests on the patched tree (same flags as build.sh)
    tests=defs.TESTS
    bad=[]
    ps=[]
    for t in tests:
        o='/tmp/seed/t_%s'%t.replace('/','_')
        ps.append((t,o,subprocess.Popen('clang++-18 -std=c++20 -w -march=x86-64-v3 -DNEO_HAS_XSIMD=1 -Isrc src/neo/%s -o %s -lCatch2Main -lCatch2 && %s'%(t,o,o),shell=True,cwd=W,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)))
    for t,o,p in ps:
        out=p.communicate()[0]
        if p.returncode: bad.append((t,out[-600:]))
    chk=[]
    for pr in [] if os.environ.get('NOCHECK') else [b['prop']]+b.get('also',[]):
        r=subprocess.run('python3 tools/run_check.py %s quick'%pr,shell=True,cwd='/verif',env=dict(os.environ,NEO_REPO=W,VERIF_SEED='1'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        chk.append((pr,r.returncode))
        if r.returncode==2: print(r.stdout[-1500:])
    print(b['id'],b['prop'],'demo clean',r0.returncode,'demo bug',r1.returncode,'tests bad',[x[0] for x in bad],'checks',chk,flush=True)
    if r0.returncode or not r1.returncode: print(r0.stdout[:600],'---',r1.stdout[:300])
    for x in bad: print(x[1])
