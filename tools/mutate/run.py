#!/usr/bin/env python3
"""run.py MUTANTS.jsonl OUT.jsonl K R: tries every K-th mutant (those with index % K == R) that passes the repository's
tests against the checks that concern its file, in a private mount namespace; OUT gets one line each."""
import json,sys,subprocess,os,shutil,time,concurrent.futures as cf
M={}
for k,v in {
 'struct':'C02 C03 C09 C07 C14 C11 C10','structcopy':'C07 C08 C06 C05 C04','structdoc':'C02 C07 C08 C11 C01 C13 C20','structtext':'C09 C10 C02 C03 C11',
 'structpara':'C02 C09 C11 C10 C03 C14','structlink':'C02 C09 C03 C07 C20','structrun':'C02 C11 C03 C09 C10','structtable':'C02 C09 C11 C03 C17 C07',
 'pack':'C12 C18 C21 C01','unpack':'C18 C13 C20 C05 C03 C14','empty':'C18 C12','docx':'C20 C05 C01 C06 C18 C21 C14','link':'C20 C05 C04 C01','media':'C20 C06 C04','apirel':'C20','id':'C05 C15',
 'image':'C19 C06','helper':'C23 C02 C14 C15','cmd/main/main':'C22','theme':'C18 C01 C16','apidrawing':'C19 C06 C01 C05','apitable':'C17 C01','apirun':'C16 C01','apipara':'C16 C01 C17 C10 C11',
 'apitext':'C09 C01','apishape':'C01 C05','apilink':'C01 C20','structrel':'C20 C02','slice':'C23','fs':'C18'}.items(): M[k]=v.split()
def checks(f):
    b=f[:-3]
    return M.get(b) or M['struct']
def sh(c,cwd,t=300):
    try: return subprocess.run(['bash','-c','. /opt/vp/env.sh; '+c],cwd=cwd,capture_output=True,text=True,errors='replace',timeout=t)
    except subprocess.TimeoutExpired: return None
def prep(i,m):
    W=f'/tmp/mut{i}'
    shutil.rmtree(W,ignore_errors=True); os.makedirs(W+'/build'); os.makedirs(W+'/evidence')
    sh(f'cp -a /repo {W}/repo && git -C {W}/repo checkout -q -- .',None)
    p=f"{W}/repo/{m['file']}"; s=open(p,'rb').read()
    open(p,'wb').write(s[:m['From']]+m['new'].encode()+s[m['To']:])
    r=sh('go build ./... && timeout 60 go test ./...',W+'/repo')
    if r is None or r.returncode:
        shutil.rmtree(W,ignore_errors=True); return None
    return W
muts=[json.loads(l) for l in open(sys.argv[1])]
K,R=int(sys.argv[3]),int(sys.argv[4]); out=open(sys.argv[2],'a')
todo=[(i,m) for i,m in enumerate(muts) if (i*7919)%K==R and m['file'] not in('contenttypes.go',)]
with cf.ThreadPoolExecutor(2) as ex:
    it=iter(todo); q=[]
    def fill():
        while len(q)<6:
            try: i,m=next(it)
            except StopIteration: return
            q.append((i,m,ex.submit(prep,i,m)))
    fill()
    while q:
        i,m,f=q.pop(0); W=f.result(); fill()
        res='tests' ; t=time.time()
        if W:
            res='SURVIVES'
            for c in checks(m['file']):
                try:
                    r=subprocess.run(['unshare','-rm','bash','-c',f'mount --bind {W}/repo /repo; mount --bind {W}/build /verif/.build; mount --bind {W}/evidence /verif/evidence; cd /verif && VERIF_FIRST=1 timeout 600 ./run.sh {c}'],capture_output=True,text=True,errors='replace')
                except Exception as e: res='ERR'; break
                if r.returncode==1: res=c; break
                if r.returncode!=0: res=f'rc{r.returncode} {c}'; break
            shutil.rmtree(W,ignore_errors=True)
        out.write(json.dumps(dict(i=i,res=res,t=round(time.time()-t,1),file=m['file'],line=m['line'],desc=m['desc'][:160],new=m['new'][:80]),ensure_ascii=False)+'\n'); out.flush()
