#!/usr/bin/env python3
"""make a planted bug: seed.py FILE where FILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new)...], DEMO (C++ main), EXTRA (optional compile flags)"""
import sys,os,json,subprocess,shutil
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'); V=os.path.abspath(V)
SH='''#!/bin/bash
# compiles the demonstration against the built tree in the current directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); B=$R/_build; T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
INC=""; for d in CPPQEDutils CPPQEDcore CPPQEDcore/high CPPQEDcore/composites CPPQEDcore/structure CPPQEDcore/quantumdata CPPQEDcore/quantumoperator CPPQEDcore/quantumtrajectory CPPQEDelements CPPQEDelements/frees CPPQEDelements/interactions CPPQEDelements/utils; do INC="$INC -I$R/$d -I$B/$d"; done
g++ -std=c++20 -O1 -w -DNDEBUG -DCPPQED_HAS_GSL -DBZ_HAVE_BOOST_SERIALIZATION %s -I"$D" $INC -isystem $R/blitz -isystem /usr/include/eigen3 "$D/demo.cc" -o $T/demo \\
  $B/CPPQEDelements/libCPPQEDelements.so $B/CPPQEDcore/libCPPQEDcore.so $B/CPPQEDutils/libCPPQEDutils.so -Wl,-rpath,$B/CPPQEDelements:$B/CPPQEDcore:$B/CPPQEDutils -Wl,--defsym=_Z13versionHelperB5cxx11v=0 -Wl,--unresolved-symbols=ignore-all -lboost_serialization -lboost_iostreams -lgsl -lgslcblas || exit 3
cd $T && timeout 120 ./demo
'''
for f in sys.argv[1:]:
    g={"EXTRA":"","FILES":{}}; exec(open(f).read(),g)
    d=V+'/seeded/'+g['ID']; os.makedirs(d,exist_ok=True); w='/tmp/seedwt'
    subprocess.run(['git','-C','/repo','worktree','remove','--force',w],capture_output=True)
    subprocess.run(['git','-C','/repo','worktree','add','-f','--detach',w],check=True,capture_output=True)
    for p,o,n in g['EDITS']:
        s=open(w+'/'+p).read()
        if s.count(o)!=1: print(g['ID'],'EDIT',p,s.count(o),repr(o)[:60]); sys.exit(1)
        open(w+'/'+p,'w').write(s.replace(o,n))
    open(d+'/patch.diff','w').write(subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout)
    subprocess.run(['git','-C','/repo','worktree','remove','--force',w],capture_output=True)
    open(d+'/demo.cc','w').write(g['DEMO']); open(d+'/demo.sh','w').write(SH%g['EXTRA']); os.chmod(d+'/demo.sh',0o755)
    for k,v in g['FILES'].items(): os.makedirs(os.path.dirname(d+'/'+k) or '.',exist_ok=True); open(d+'/'+k,'w').write(v)
    json.dump({"property":g['PROPERTY'],"needs":g['NEEDS'],"what_it_breaks":g['BREAKS']},open(d+'/meta.json','w'),indent=1)
    r=subprocess.run(["timeout","200",d+'/demo.sh'],cwd="/repo",stderr=open("/tmp/seed.err","w")); print(g['ID'],'demo on unchanged tree:',r.returncode)
