#!/usr/bin/env python3
# Rewrites the generated tables of DESIGN.md: the suites of each check (from
# evidence/, after a quick run of all checks) and the planted bugs (from
# seeded/ and tools/seedresults.txt, written by tools/seedrun.sh).
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f=root+'/DESIGN.md'; s=open(f).read()
def put(name,t):
    global s
    a,b='<!-- %s -->\n'%name,'<!-- end %s -->'%name
    i,j=s.index(a)+len(a),s.index(b)
    s=s[:i]+t+s[j:]
o=[]
dlg=None
for p in sorted(glob.glob(root+'/evidence/C*.json')):
    e=json.load(open(p)); id=e['property']; c=e['coverage']
    ss=c.get('suites') or []
    sig=json.dumps([x['bound'] for x in ss])
    o.append('### %s (%.0f s, %s)\n'%(id,e['wall_s'],', '.join('%s %s'%(format(c[k],','),k.replace('_',' ')) for k in('states','transitions','evaluations','distinct_nontrivial') if k in c)))
    if dlg==sig: o.append('Suites as for C22.\n')
    else:
        if id=='C22': dlg=sig
        for x in ss: o.append('* **%s**: %s (%s executions)'%(x['name'],x['bound'],format(x['executions'],',')))
    o.append('')
put('suites','\n'.join(o)+'\n')
res={}
try:
    for l in open(root+'/tools/seedresults.txt'):
        w=l.split()
        if len(w)>2: res[w[0]]=w[2]
except FileNotFoundError: pass
o=['| planted bug | check | result | what it breaks | needs |','|---|---|---|---|---|']
for p in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(p)); id=p.split('/')[-2]
    o.append('| %s | %s | %s | %s | %s |'%(id,m['property'],res.get(id,'?'),m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/')))
put('seeds','\n'.join(o)+'\n')
open(f,'w').write(s)
