#!/usr/bin/env python3
"""run_mutants.py OUT.jsonl [NWORKERS] [regex]: judges the mutants of mutate.py in private namespaces
(own /repo mount, loopback, /tmp), so that several run side by side. Work directories: /var/tmp/mw."""
import os,sys,subprocess,json,queue,re,random
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,'/verif/tools'); import mutate
OUT=sys.argv[1]; NW=int(sys.argv[2]) if len(sys.argv)>2 else 4; RX=re.compile(sys.argv[3]) if len(sys.argv)>3 else None
SCALE=os.environ.get('SCALE','0.1')
W='/var/tmp/mw'
NS=W+'/ns.sh'
PROPS=[l.split('"')[1] for l in open('/verif/harness/src/props/mod.rs') if l.strip().startswith('p!(v') and l.split('"')[1] not in ('C26','C28','C29','C30')]
ORDER={'network':['C01','C03','C06','C04','C21','C08','C10','C07','C23'],'robot.rs':['C02','C01','C08','C16','C13','C25','C23','C06'],'robot_impl':['C08','C10','C11','C06','C04','C09','C23','C21'],
'service_types':['C02','C01','C04','C10','C08','C21'],'types.rs':['C05','C17','C09','C08'],'control_loop':['C08','C09','C12','C13','C16','C17','C22','C10'],'control_tools':['C12','C22'],'control_types':['C12','C13','C14','C16','C17','C19'],
'error':['C05','C10'],'logger':['C11'],'low_pass':['C15','C16'],'rate_limiting':['C13','C14'],'robot_state':['C05','C24','C20'],'model':['C20','C21'],'utils':['C18','C19','C25'],'gripper':['C03','C04'],'library_downloader':['C21']}
def order(f,near=False):
    o=[]
    for k,v in ORDER.items():
        if k in f: o+=v
    if near and o: return [p for p in dict.fromkeys(o)]
    return [p for p in dict.fromkeys(o)]+[p for p in PROPS if p not in o]
def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True)
def setup(k):
    d=f'{W}/{k}'; os.makedirs(d,exist_ok=True)
    sh(f'rm -rf {d}/repo {d}/target; cp -a /repo {d}/repo; cp -a /verif/harness/target {d}/target; rm -rf {d}/target/asan; mkdir -p {d}/tmp {d}/ev {d}/log')
    sh(f'rm -rf {d}/verif; mkdir {d}/verif; cp -a /verif/check.sh {d}/verif/; mkdir {d}/verif/harness; cp -a /verif/harness/src /verif/harness/shim /verif/harness/Cargo.toml /verif/harness/Cargo.lock {d}/verif/harness/')
def ns(k,cmd,timeout=600,scale=None):
    e=dict(os.environ); e.update(VERIF_TARGET=f'{W}/{k}/target',VERIF_EVIDENCE=f'{W}/{k}/ev',VERIF_SEED='1',VERIF_TIER='quick')
    if scale: e['VERIF_SCALE']=scale
    try:
        r=subprocess.run([NS,f'{W}/{k}','bash','-c',cmd],capture_output=True,text=True,timeout=timeout,env=e)
        return r.returncode,r.stdout+r.stderr
    except subprocess.TimeoutExpired: return 124,'timeout'
base=json.load(open('/opt/vp/BASELINE.json'))
def flist(o):
    if isinstance(o,list) and o and isinstance(o[0],str): return o
    if isinstance(o,dict):
        for k in ('passed','stable','pass','tests'):
            if k in o and flist(o[k]): return flist(o[k])
        for v in o.values():
            if flist(v): return flist(v)
stable=set(flist(base))
q=queue.Queue()
def one(m):
    k=q.get(); res=dict(m=m)
    try:
        root=f'{W}/{k}/repo'
        sh(f'git -C {root} checkout -q -- .')
        res['old']=open(f'{root}/{m[0]}').read().split('\n')[m[1]].strip()
        mutate.apply(m,root)
        res['new']=open(f'{root}/{m[0]}').read().split('\n')[m[1]].strip()
        rc,o=ns(k,f'{W}/{k}/verif/check.sh build plain')
        if rc: res['r']='nocompile'; return res
        B=f'{W}/{k}/target/debug/verif'
        def sweep(scale,near=False):
            for p in order(m[0],near):
                rc,o=ns(k,f'VERIF_SHIM={W}/{k}/target/shim {B} {p} quick',scale=scale)
                if rc:
                    res['r']='killed' if rc==1 else 'rc%d'%rc; res['by']=p
                    res['why']=([l for l in o.splitlines() if l.startswith('case')] or [o[-200:]])[0][:200]
                    return True
        if sweep(SCALE,True): return res
        rc,o=ns(k,f'bash /opt/vp/build.sh >/dev/null 2>&1 || exit 9; bash /opt/vp/test.sh {W}/{k}/out.json >/dev/null 2>&1')
        if rc==9: res['r']='nocompile'; return res
        p=set(flist(json.load(open(f'{W}/{k}/out.json')).get('passed',[])) or [])
        if stable-p: res['r']='tests'; res['why']=sorted(stable-p)[:2]; return res
        if sweep(os.environ.get('SCALE2','0.3')): res['late']=True; return res
        res['r']='SURVIVED'; return res
    except Exception as e:
        res['r']='error %r'%e; return res
    finally:
        with open(OUT,'a') as f: f.write(json.dumps(res)+'\n')
        q.put(k)
os.makedirs(W,exist_ok=True)
open(NS,'w').write('''#!/bin/bash
W=$1; shift
exec unshare -Urmn bash -c 'W=$1; shift; ip link set lo up; mount --bind $W/repo /repo; mount --bind $W/tmp /tmp; [ -d /opt/vp/log ] && mount --bind $W/log /opt/vp/log; exec "$@"' _ $W "$@"
'''); os.chmod(NS,0o755)
def noise(m):
    """field names in struct literals and the values of the dummy state"""
    l=open('/repo/'+m[0]).read().split('\n')[m[1]].strip()
    return (m[5]=='swapargs' and re.match(r'^\w+,$',l)) or (m[0]=='src/robot/types.rs' and 95<=m[1]<=210 and re.match(r'^\w+: .*,$',l) and m[5] in ('int','float','bool'))
done=set()
if os.path.exists(OUT):
    for l in open(OUT): done.add(json.dumps(json.loads(l)['m']))
ms=[m for m in mutate.all_mutants() if json.dumps(list(m)) not in done and not noise(m) and (not RX or RX.search(m[0]+':'+m[5]))]
random.Random(3).shuffle(ms)
print(len(ms),'mutants',flush=True)
for k in range(NW): setup(k); q.put(k)
with ThreadPoolExecutor(NW) as ex:
    for i,r in enumerate(ex.map(one,ms)):
        if r['r'] not in ('killed','nocompile'): print(i,r['r'],r['m'][0],r['m'][1]+1,r['m'][5],'|',r.get('old'),'=>',r.get('new'),'|',r.get('by',''),r.get('why',''),flush=True)
