#!/usr/bin/env python3
"""Development aid: apply each mutant of mutants.py to a scratch copy of /repo
and run the checks it names.  kind 'bug' must be reported, kind 'same' must be
quiet.   mutrun.py [-p PROP] [-k KIND] [substring]"""
import sys,subprocess,tempfile,shutil,os,argparse
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,'/verif/tools')
from mutants import M
ap=argparse.ArgumentParser(); ap.add_argument('-p'); ap.add_argument('-k'); ap.add_argument('-v',action='store_true'); ap.add_argument('s',nargs='?')
a=ap.parse_args()
CHK=os.environ.get('CHK','/tmp/chk')
def one(m):
    kind,props,f,edits=m[:4]
    d=tempfile.mkdtemp(prefix='mut.'); r=d+'/repo'
    try:
        subprocess.run(['cp','-a','/repo',r],check=True)
        os.makedirs(d+'/evidence'); os.makedirs(d+'/checker'); os.symlink('/verif/checker/data',d+'/checker/data')
        p=r+'/'+f; s=open(p).read()
        for old,new in edits:
            k=0
            if new.startswith('@'): k,new=new[1:].split('@',1); k=int(k)
            pos=-1
            for _ in range(k+1):
                pos=s.find(old,pos+1)
                if pos<0: return m,'NOTFOUND '+old[:50],''
            s=s[:pos]+new+s[pos+len(old):]
        open(p,'w').write(s)
        out=[]; worst=''
        for q in props.split():
            if a.p and q!=a.p: continue
            c=subprocess.run(f'ulimit -v 12000000; timeout 600 {CHK} -repo {r} -prop {q} -verif {d}',shell=True,capture_output=True,text=True,errors='replace',cwd='/verif')
            o=c.stdout+c.stderr
            v=[l.strip()[:110] for l in o.splitlines() if 'violated:' in l or 'undecided:' in l.lower()]
            res='caught' if 'VIOLATION' in o and c.returncode==1 else ('quiet' if c.returncode==0 else 'rc%d %s'%(c.returncode,o[-200:]))
            out.append(q+':'+res+' '+' / '.join(v[:3]))
            ok=(res=='caught') if kind=='bug' else (res=='quiet')
            if not ok: worst='WRONG'
        return m,worst or 'ok','; '.join(out)
    finally: shutil.rmtree(d)
os.makedirs('/tmp/vv/evidence',exist_ok=True)
sel=[m for m in M if (not a.k or m[0]==a.k) and (not a.p or a.p in m[1].split()) and (not a.s or a.s in str(m))]
with ThreadPoolExecutor(int(os.environ.get("J","8"))) as ex:
    for m,w,o in ex.map(one,sel):
        if w!='ok' or a.v: print(w,m[0],m[2],repr(m[3][0][1][:70]),'|',o[:400])
print(len(sel),'run')
