"""plant.py SPEC.py...: write seeded/<ID>/ from a description (ID, PROP, FILE/OLD/NEW or EDITS, NEEDS, BREAKS, DEMO; FLAGS, CFG, TIMEOUT, RUN).
Needs a clean /repo (which is patched for a moment)."""
import sys,os,subprocess,json,runpy
for sp in sys.argv[1:]:
    m=runpy.run_path(sp); i=m['ID']
    d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True)
    edits=m.get('EDITS') or [(m['FILE'],m['OLD'],m['NEW'])]
    assert not subprocess.run('git -C /repo status --porcelain',shell=True,capture_output=True,text=True).stdout
    try:
        for f,o,n in edits:
            p='/repo/macoro/'+f; s=open(p,newline='').read()
            if s.count(o)==0: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
            assert s.count(o)==1,(i,f,s.count(o))
            open(p,'w',newline='').write(s.replace(o,n))
        diff=subprocess.run(['git','-C','/repo','diff','--no-color'],capture_output=True).stdout
    finally:
        subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','wb').write(diff)
    open(d+'/demo.cpp','w').write(m['DEMO'].lstrip())
    cfg=m.get('CFG','std_stop'); fl=m.get('FLAGS',''); to=m.get('TIMEOUT',60); run=m.get('RUN','')
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# run with cwd /repo, after the build
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=$PWD/_build/demo_{i}
g++ -std=c++20 -O1 -g -w {fl} -I "$PWD" -I "$PWD/_build/{cfg}" "$here/demo.cpp" -o "$out" "$PWD/_build/{cfg}/macoro/libmacoro.a" -pthread || exit 2
{run} timeout -s KILL {to} "$out"
''')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":m['PROP'],"needs":m['NEEDS'],"what_it_breaks":m['BREAKS']},open(d+'/meta.json','w'),indent=1)
    print(i,'written')
