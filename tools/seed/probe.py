#!/usr/bin/env python3
"""probe.py SPEC.py [ids...]: tries quick bug ideas without demonstrations: builds a patched copy, runs the
repository's tests, and runs the property's check (or dict key 'checks') on it in a mount namespace."""
import subprocess, sys, os, shutil, time
def sh(c,cwd=None,t=1200):
    return subprocess.run(['bash','-c','. /opt/vp/env.sh; '+c],cwd=cwd,capture_output=True,text=True,errors='replace',timeout=t)
def one(b):
    W='/tmp/probew%d'%os.getpid()
    shutil.rmtree(W,ignore_errors=True); os.makedirs(W+'/build'); os.makedirs(W+'/evidence')
    sh(f'cp -a /repo {W}/repo && git -C {W}/repo checkout -q -- .')
    for e in b['edits']:
        f,o,n=e[:3]; p=f'{W}/repo/{f}'; s=open(p).read(); k=e[3] if len(e)>3 else 1
        if s.count(o)!=k: return f'EDIT {f}: {s.count(o)} occurrences of {o!r}'
        open(p,'w').write(s.replace(o,n))
    r=sh('go build ./... && go vet . && go test ./...',W+'/repo')
    if r.returncode: return 'BUILD/TEST '+r.stdout[-600:]+r.stderr[-600:]
    out=[]
    for c in b.get('checks') or [b['property']]:
        t=time.time()
        r=subprocess.run(['unshare','-rm','bash','-c',f'mount --bind {W}/repo /repo; mount --bind {W}/build /verif/.build; mount --bind {W}/evidence /verif/evidence; cd /verif && timeout 900 ./run.sh {c}'],capture_output=True,text=True,errors='replace')
        v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('  sig')]
        out.append(f"{c} rc={r.returncode} {'CAUGHT' if r.returncode==1 else 'MISSED'} {time.time()-t:.0f}s")
    shutil.rmtree(W,ignore_errors=True)
    return '; '.join(out)
if __name__=='__main__':
    g={}; exec(open(sys.argv[1]).read(),g); only=sys.argv[2:]
    for b in g['PROBES']:
        if only and b['id'] not in only: continue
        print(b['id'],one(b),flush=True)
