#!/bin/bash
# trial.sh SPEC.py PROBE CHECK: shows the output of a check on one probe.
python3 - "$@" <<'P'
import sys,subprocess,os,shutil
sys.path.insert(0,'/verif/tools/seed'); import probe
g={}; exec(open(sys.argv[1]).read(),g)
b=[x for x in g['PROBES'] if x['id']==sys.argv[2]][0]
W='/tmp/trialw'; shutil.rmtree(W,ignore_errors=True); os.makedirs(W+'/build'); os.makedirs(W+'/evidence')
probe.sh(f'cp -a /repo {W}/repo && git -C {W}/repo checkout -q -- .')
for e in b['edits']:
    f,o,n=e[:3]; p=f'{W}/repo/{f}'; s=open(p).read(); open(p,'w').write(s.replace(o,n))
r=subprocess.run(['unshare','-rm','bash','-c',f'mount --bind {W}/repo /repo; mount --bind {W}/build /verif/.build; mount --bind {W}/evidence /verif/evidence; cd /verif && timeout 900 ./run.sh {sys.argv[3]}'],capture_output=True,text=True)
print(r.returncode); print(r.stdout[-3000:]); print(r.stderr[-3000:])
P
