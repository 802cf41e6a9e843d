#!/usr/bin/env python3
"""seedtool.py make ID...   build and validate seeded/<ID> from tools/seeds/<ID>.seed
   seedtool.py try ID...    run the property's quick check against the seeded change
A .seed file: header lines "prop:", "needs:", "breaks:", "pkg:", "file:"; then
blocks "<<<< FILE", old text, "====", new text, ">>>>"; then "@@@@ demo" and a Go test file."""
import sys,os,re,subprocess,json,shutil,tempfile
V='/verif'
def parse(id):
    t=open(f'{V}/tools/seeds/{id}.seed').read()
    head,demo=t.split('@@@@ demo\n',1)
    m=dict(re.findall(r'^(prop|needs|breaks|pkg): (.*)$',head,re.M))
    edits=re.findall(r'^<<<< (\S+)\n(.*?)^====\n(.*?)^>>>>$',head,re.M|re.S)
    return m,edits,demo
DEMO='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap '/bin/rm -rf "$t"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
cp go.mod "$t/m.mod" && cp "$d/go.sum.txt" "$t/m.sum"
export GOFLAGS="-mod=mod -modfile=$t/m.mod"
cp "$d/demo_test.go.txt" "$t/demo_test.go"
echo "{\\"Replace\\":{\\"$PWD/%szz_demo_test.go\\":\\"$t/demo_test.go\\"}}" > "$t/o.json"
go test -vet=off -overlay "$t/o.json" -run TestSeedDemo -count=1 -timeout 200s ./%s
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def make(id):
    m,edits,demo=parse(id)
    w=tempfile.mkdtemp(prefix='seedwt.',dir='/tmp')
    r=w+'/repo'
    sh(f'cp -a /repo {r}')
    out=f'{V}/seeded/{id}'
    os.makedirs(out,exist_ok=True)
    pkg=m.get('pkg','.')
    open(out+'/demo.sh','w').write(DEMO%('' if pkg=='.' else pkg+'/',pkg)); os.chmod(out+'/demo.sh',0o755)
    open(out+'/demo_test.go.txt','w').write(demo)
    shutil.copy('/opt/vp/owcrypt.sum',out+'/go.sum.txt')
    json.dump({"property":m['prop'],"needs":m['needs'],"what_it_breaks":m['breaks']},open(out+'/meta.json','w'),indent=1)
    ok=True
    d=sh(f'{out}/demo.sh',cwd=r)
    if d.returncode!=0: print(id,'DEMO FAILS ON CLEAN',d.stdout[-800:],d.stderr[-800:]); ok=False
    for f,o,n in edits:
        s=open(f'{r}/{f}').read()
        if s.count(o)!=1: print(id,'edit matches',s.count(o),'times in',f,repr(o[:60])); shutil.rmtree(w); return False
        open(f'{r}/{f}','w').write(s.replace(o,n))
    open(out+'/patch.diff','w').write(sh('git diff',cwd=r).stdout)
    # only original lines changed?
    b=sh(f"bash -c '. /opt/vp/env.sh; cd {r}; go build ./... && go test -vet=off -count=1 -timeout 10m -json ./... > /tmp/seedtest.json; python3 /opt/vp/results.py /tmp/seedout.json gojson:/tmp/seedtest.json'",cwd=r)
    if not os.path.exists('/tmp/seedout.json'): print(id,'BUILD/TEST problem',b.stdout[-500:],b.stderr[-800:]); ok=False
    else:
        res=json.load(open('/tmp/seedout.json')); base=json.load(open('/opt/vp/BASELINE.json'))
        os.remove('/tmp/seedout.json')
        need=set(base.get('stable',base.get('passed',base)) if isinstance(base,dict) else base)
        got=set(res.get('passed',res) if isinstance(res,dict) else res)
        if not need<=got: print(id,'STABLE TESTS FAIL',need-got); ok=False
    d=sh(f'{out}/demo.sh',cwd=r)
    if d.returncode==0: print(id,'DEMO PASSES WITH BUG'); ok=False
    elif 'FAIL' not in d.stdout: print(id,'demo odd failure',d.stdout[-500:],d.stderr[-500:]); ok=False
    shutil.rmtree(w)
    print(id,'OK' if ok else 'BAD')
    return ok
def tryit(id):
    m=json.load(open(f'{V}/seeded/{id}/meta.json'))
    p=f'{V}/seeded/{id}/patch.diff'
    if sh('git -C /repo status --porcelain').stdout.strip(): print('repo dirty'); sys.exit(1)
    a=sh(f'git -C /repo apply {p}')
    if a.returncode: print(id,'does not apply',a.stderr); return
    import time; t=time.time()
    try: r=sh(f'timeout 900 {V}/run.sh {m["property"]} quick')
    finally: sh('git -C /repo checkout -- .')
    v=[l[:200] for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(f'{id} {m["property"]} exit={r.returncode} {time.time()-t:.0f}s', 'CAUGHT '+v[0] if r.returncode==1 and v else 'MISSED')
    if not v: print('\n'.join(l[:160] for l in r.stdout.splitlines()[-8:]))
if __name__=='__main__':
    for i in sys.argv[2:]: (make if sys.argv[1]=='make' else tryit)(i)
