#!/usr/bin/env python3
"""Confirms the planted bugs of /verif/seeded in scratch copies: builds, passes the stable tests, demo fails with the change
and passes without; then runs the quick check of the property against the copy.
usage: seedcheck.py [--confirm|--detect] [--tier T] [--seed N] [id ...]"""
import subprocess,sys,os,shutil,time,json,argparse
from concurrent.futures import ThreadPoolExecutor
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD=os.path.join(H,'seeded')
def sh(c,**k): return subprocess.run(c,capture_output=True,text=True,**k)
def build(d):
    e=dict(os.environ,CC='/usr/bin/gcc',CXX='/usr/bin/g++')
    r=sh(['cmake','-S',d,'-B',d+'/_build','-G','Ninja','-DCMAKE_BUILD_TYPE=Release','-DCMAKE_POLICY_VERSION_MINIMUM=3.5','-DCMAKE_PROJECT_INCLUDE=/opt/vp/cases.cmake'],env=e)
    if r.returncode: return r.stderr
    r=sh(['ninja','-C',d+'/_build'])
    return r.stdout[-1500:] if r.returncode else ''
def tests(d):
    r=sh(['ninja','-C',d+'/_build','vp_cases'])
    if r.returncode: return 'vp_cases does not build'
    sh(['ctest','--test-dir',d+'/_build','-j8','--timeout','60','--output-junit',d+'/_build/ctest.xml'])
    sh(['python3','/opt/vp/results.py',d+'/_build/o.json','junit:'+d+'/_build/ctest.xml'])
    o=json.load(open(d+'/_build/o.json')); st=json.load(open('/opt/vp/BASELINE.json'))['stable']
    bad=[t for t in st if t not in o['passed']]
    return ' '.join(bad[:4])
def demo(i,d):
    m=sh(['mktemp','-d']).stdout.strip()
    for f in os.listdir(os.path.join(SD,i)):
        if not f.endswith(('.diff','.patch')) and f!='meta.json': shutil.copy(os.path.join(SD,i,f),m)
    t=time.time()
    r=sh(['bash',m+'/demo.sh'],cwd=d)
    shutil.rmtree(m)
    return r.returncode,time.time()-t,(r.stdout+r.stderr)[-300:]
def main():
    ap=argparse.ArgumentParser(); ap.add_argument('ids',nargs='*'); ap.add_argument('--confirm',action='store_true'); ap.add_argument('--detect',action='store_true'); ap.add_argument('--tier',default='quick'); ap.add_argument('--seed',default='1')
    a=ap.parse_args(); both=not(a.confirm or a.detect)
    ids=a.ids or sorted(os.listdir(SD))
    clean=f'/tmp/sd-clean-{os.getpid()}'
    if a.confirm or both:
        shutil.rmtree(clean,ignore_errors=True); sh(['git','clone','-q','/repo',clean])
        e=build(clean)
        if e: print('clean build failed',e); return
    for i in ids:
        m=json.load(open(os.path.join(SD,i,'meta.json')))
        d=f'/tmp/sd-{os.getpid()}-{i}'
        shutil.rmtree(d,ignore_errors=True); sh(['git','clone','-q','/repo',d])
        r=sh(['git','-C',d,'apply',os.path.join(SD,i,'patch.diff')])
        if r.returncode: print(i,'PATCH FAILS',r.stderr[:300]); continue
        ok=True
        if a.confirm or both:
            e=build(d)
            if e: print(i,'BUILD FAILS',e); continue
            f=tests(d)
            if f: print(i,'TESTS FAIL',f); ok=False
            rc,t,o=demo(i,clean)
            if rc: print(i,'DEMO FAILS ON CLEAN',rc,o); ok=False
            rc2,t2,o2=demo(i,d)
            if not rc2: print(i,'DEMO PASSES WITH BUG',o2); ok=False
            if ok: print(i,m['property'],f'CONFIRMED demo {rc2} {t:.0f}s/{t2:.0f}s:',o2.strip().replace('\n',' ')[-150:],flush=True)
        if (a.detect or both) and ok:
            t=time.time()
            r=sh(['python3',os.path.join(H,'run.py'),m['property'],'--tier',a.tier,'--seed',a.seed],env=dict(os.environ,VERIF_REPO=d))
            print(i,m['property'],'CAUGHT' if f'VIOLATION property={m["property"]}' in r.stdout and r.returncode==1 else '***MISSED***',r.returncode,f'{time.time()-t:.0f}s',r.stdout.strip().split('\n')[0][:220],flush=True)
        shutil.rmtree(d,ignore_errors=True)
    shutil.rmtree(clean,ignore_errors=True)
main()
