#!/usr/bin/env python3
"""Plants one small change after another and lists those that no check sees.

usage: sweep.py MUTANTS.jsonl OUT.jsonl W N   (worker W of N takes every Nth mutant)
Works on copies: /tmp/sweep/vW of /verif and /tmp/sweep/rW of /repo. A result is
build (does not compile), tests (existing tests fail), caught ID, or SURVIVED.
"""
import json, os, subprocess, sys, shutil
muts=[json.loads(l) for l in open(sys.argv[1])]
out,w,n=sys.argv[2],int(sys.argv[3]),int(sys.argv[4])
V,R='/tmp/sweep/v%d'%w,'/tmp/sweep/r%d'%w
def sh(c,cwd,t=900):
    try:
        p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=t,start_new_session=True)
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 99,'timeout'
os.makedirs('/tmp/sweep',exist_ok=True)
if not os.path.exists(V):
    sh('mkdir %s && cp -a /verif/mc /verif/known_findings.txt /verif/.work %s/ ; sed -i "s/f(x, p) }/f(x, \\"C\\") }/" %s/mc/h/dlg/dialog.go; sed -i "s/prop == \\"C22\\"/prop == \\"C\\"/" %s/mc/h/dlg/*.go'%(V,V,V,V),'/tmp')
if not os.path.exists(R): sh('cp -a /repo '+R,'/tmp')
CH=[('sip/','C04 C06 C05 C07 C03 C02 C01 C29 C19'),('sdp/','C09 C08 C01'),('rtp/','C10 C12 C11 C14 C13'),('dsp/','C15 C16 C17 C11 C13'),('util/','C30 C21 C08 C19 C25'),
 ('dialog/dialog','C25'),('dialog/messages','C29 C25'),('dialog/transport','C19 C20'),('dialog/route','C18 C21 C19'),('dialog/receiver','C20 C25'),('dialog/','C19 C20 C18 C21 C29 C25')]
done=set()
if os.path.exists(out):
    done={json.loads(l)['i'] for l in open(out)}
for i,m in enumerate(muts):
    if i%n!=w or i in done: continue
    sh('git checkout -q -- .',R)
    p=R+'/'+m['file']
    b=open(p,'rb').read()
    assert b[m['s']:m['e']]==m['old'].encode()
    open(p,'wb').write(b[:m['s']]+m['new'].encode()+b[m['e']:])
    pkg='./'+os.path.dirname(m['file'])
    r='SURVIVED'
    rc,o=sh('. /opt/vp/env.sh; go build ./... 2>&1',R)
    if rc: r='build'
    else:
        rc,o=sh('. /opt/vp/env.sh; go test -vet=off -count=1 -timeout 20s ./dialog ./sip ./sdp ./rtp ./dsp ./util',R)
        if rc: r='tests'
        else:
            for pre,ids in CH:
                if m['file'].startswith(pre):
                    for c in ids.split():
                        for bud in ([4,100] if c in 'C25 C20 C19 C18 C06 C07 C09' else [100]):
                            rc,o=sh('. /opt/vp/env.sh; VERIF_TIER=quick VERIF_SEED=1 .work/bin/vdrive -root %s -repo %s -n 3 -budget %d %s'%(V,R,bud,c),V)
                            if rc==1: break
                        if rc==1: r='caught '+c; break
                        if rc!=0: r='caught? '+c+' '+o[-300:]; break
                    break
    m['i']=i; m['r']=r
    with open(out,'a') as f: f.write(json.dumps(m)+'\n')
