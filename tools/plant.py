#!/usr/bin/env python3
"""Development tool (no check uses it): make and confirm a planted change under seeded/<id>/.
usage: plant.py DEFS.py [id...]   DEFS.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, flags, needs, breaks)]
       plant.py --recheck [id...] re-run the property's quick check against the kept changes
The change is applied to /repo, built, tested, demonstrated, checked, and undone straight away."""
import sys, os, json, subprocess, importlib.util, shutil
REPO='/repo'; V='/verif'; BASE='39ee2d6'
DEMO_SH='''#!/bin/bash
# run with cwd /repo; exit 0: the property holds here, nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
gcc -std=gnu11 -g -w %s -Iinc "$D/demo.c" $(find src -name '*.c') -o "$T/demo" -lm -lpthread || exit 1
mkdir "$T/w" && cd "$T/w" && timeout 120 ../demo >/dev/null 2>"$T/err"
rc=$?
[ $rc -ne 0 ] && tail -n 5 "$T/err" >&2
exit $rc
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def undo(): sh(f'git -C {REPO} checkout -- .')
def tests():
    r=sh('bash /opt/vp/build.sh')
    if r.returncode: return 'build failed: '+(r.stdout+r.stderr)[-600:]
    sh('bash /opt/vp/test.sh /tmp/plant_out.json')
    o=json.load(open('/tmp/plant_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
    st=json.dumps(o); 
    want=b.get('stable') or b.get('passed') or b.get('tests') or b.get('stable_pass')
    got=o.get('passed') or o.get('pass')
    miss=[t for t in want if t not in got]
    return None if not miss else 'tests failed: %s'%miss
def check(pid):
    r=sh(f'cd {V} && VERIF_SEED=1 VERIF_TIER=quick python3 run_check.py {pid} quick')
    vi=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return r.returncode,(vi[0] if vi else (r.stdout+r.stderr)[-300:])
def demo(d): return subprocess.run(['bash',d+'/demo.sh'],cwd=REPO,capture_output=True,text=True,timeout=300)
def one(s):
    d=f'{V}/seeded/{s["id"]}'
    undo()
    for f,o,n in s['edits']:
        p=f'{REPO}/{f}'; t=open(p).read()
        if t.count(o)!=1: undo(); return f'edit matches {t.count(o)} times in {f}: {o[:60]!r}'
        open(p,'w').write(t.replace(o,n))
    diff=sh(f'git -C {REPO} diff').stdout
    base={}
    mine=[]
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur=l[6:]; base[cur]=sh(f'git -C {REPO} show {BASE}:{cur}').stdout.splitlines()
        elif l.startswith('-') and l[1:].strip() and l[1:] not in base[cur]: mine.append(l)
    if mine: undo(); return 'changes a line of ours: '+mine[0]
    e=tests()
    if e: undo(); return e
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff); open(d+'/demo.c','w').write(s['demo'].lstrip())
    open(d+'/demo.sh','w').write(DEMO_SH%s.get('flags','')); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    r=demo(d); rc,msg=check(s['prop'])
    undo()
    r0=demo(d)
    bad=''
    if r.returncode==0: bad+=' DEMO-PASSES-WITH-PATCH'
    if r0.returncode!=0: bad+=' DEMO-FAILS-CLEAN: '+r0.stderr[-400:]
    if bad: shutil.rmtree(d)
    return ('caught' if rc==1 and msg.startswith('VIOLATION') else f'MISSED rc={rc} {msg}')+' '+(msg if rc==1 else '')+bad
def recheck(i):
    d=f'{V}/seeded/{i}'; undo()
    m=json.load(open(d+'/meta.json'))
    if sh(f'git -C {REPO} apply {d}/patch.diff').returncode: return 'does not apply'
    rc,msg=check(m['property']); undo()
    return f'{m["property"]} '+('caught' if rc==1 and msg.startswith('VIOLATION') else f'MISSED rc={rc} {msg}')
if __name__=='__main__':
    try:
        if sys.argv[1]=='--recheck':
            for i in sys.argv[2:] or sorted(os.listdir(V+'/seeded')): print(i,recheck(i),flush=True)
        else:
            sp=importlib.util.spec_from_file_location('defs',sys.argv[1]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
            for s in m.SEEDS:
                if len(sys.argv)>2 and s['id'] not in sys.argv[2:]: continue
                print(s['id'],s['prop'],one(s),flush=True)
    finally:
        undo(); sh('bash /opt/vp/build.sh')
