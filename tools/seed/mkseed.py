#!/usr/bin/env python3
"""mkseed.py SPEC.py...: makes /verif/seeded/<id>/ from specs and confirms each one.

A spec defines BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new[, count])],
demo (Go source of func main's body), imports (list), optional sh (own demo.sh)."""
import subprocess, sys, os, json, shutil
SEED='/verif/seeded'; W='/tmp/seedw'
here=os.path.dirname(os.path.abspath(__file__))
def sh(c,cwd=None,t=600):
    return subprocess.run(['bash','-c','. /opt/vp/env.sh; '+c],cwd=cwd,capture_output=True,text=True,timeout=t)
def main(b):
    if os.path.exists(W): shutil.rmtree(W)
    sh(f'cp -a /repo {W}')
    for e in b['edits']:
        f,o,n=e[:3]; p=f'{W}/{f}'; s=open(p).read(); k=e[3] if len(e)>3 else 1
        if s.count(o)!=k: return f'{f}: {s.count(o)} occurrences of {o!r}'
        open(p,'w').write(s.replace(o,n))
    r=sh('gofmt -l *.go; go build ./... && go vet . && go test ./...',W)
    if r.returncode: return 'build/test: '+r.stdout[-1500:]+r.stderr[-1500:]
    d=f"{SEED}/{b['id']}"; os.makedirs(d,exist_ok=True)
    diff=subprocess.run(['git','diff'],cwd=W,capture_output=True,text=True).stdout
    # only changed lines of the original
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1,ensure_ascii=False)
    if 'sh' in b: open(d+'/demo.sh','w').write(b['sh'])
    else:
        shutil.copy(here+'/demo.sh',d+'/demo.sh')
        shutil.copy(here+'/util.go',d+'/util.go')
        imps=''.join(f'\t"{i}"\n' for i in b.get('imports',[]))
        body=b['demo']
        imp='import (\n'+imps+('\n\tdocx "github.com/fumiama/go-docx"\n' if 'docx.' in body else '')+')\n' if imps or 'docx.' in body else ''
        open(d+'/demo.go','w').write('package main\n\n'+imp+'\n'+b.get('top','')+'\nfunc main() {\n'+body+'\n}\n')
        sh(f'gofmt -w {d}/demo.go')
    os.chmod(d+'/demo.sh',0o755)
    r0=sh(f'bash {d}/demo.sh','/repo'); r1=sh(f'bash {d}/demo.sh',W)
    if r0.returncode!=0: return 'demo fails unpatched: '+r0.stdout[-800:]+r0.stderr[-800:]
    if r1.returncode in (0,2,3): return f'demo gives {r1.returncode} patched: '+r1.stdout[-800:]+r1.stderr[-800:]
    return None
if __name__=='__main__':
    only=None; specs=[]
    for a in sys.argv[1:]:
        if a.endswith('.py'): specs.append(a)
        else: only=(only or [])+[a]
    for s in specs:
        g={}; exec(open(s).read(),g)
        for b in g['BUGS']:
            if only and b['id'] not in only: continue
            if not only and os.path.exists(f"{SEED}/{b['id']}/OK"): continue
            e=main(b); d=f"{SEED}/{b['id']}"
            print(b['id'],b['property'],'OK' if e is None else 'FAIL '+e,flush=True)
            if e is not None and os.path.exists(d): shutil.rmtree(d)
    shutil.rmtree(W,ignore_errors=True)
