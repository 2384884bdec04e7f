#!/usr/bin/env python3
"""Runs the check of one property:  run.py P07 [--tier quick|thorough]   (or  run.py --replay FILE)

Rebuilds the library from /repo's working tree in the configurations the property needs (cached by content),
builds the property's harness against it, runs it in every configuration, writes evidence/<id>.json and reports."""
import argparse, hashlib, threading, json, os, subprocess, sys, time, glob, shutil
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get('VERIF_REPO','/repo')
BUILD=os.path.join(HERE,'build')
sys.path.insert(0,HERE)
from plan import PLAN, CONFIGS

def sh(cmd,**kw): return subprocess.run(cmd,capture_output=True,text=True,**kw)
def digest(parts):
    h=hashlib.sha256()
    for p in parts:
        b=p if isinstance(p,bytes) else p.encode()
        h.update(str(len(b)).encode()+b':'+b)
    return h.hexdigest()[:20]
def read(p):
    with open(p,'rb') as f: return f.read()
def repo_files():
    out=[]
    for d in ('src','include'):
        for root,_,fs in os.walk(os.path.join(REPO,d)):
            out+= [os.path.join(root,f) for f in fs]
    return sorted(out)
class BuildError(Exception): pass

def compile_all(jobs,what):
    """jobs: list of (cmd, out)"""
    def one(j):
        r=sh(j)
        return (r.returncode,' '.join(j),r.stderr)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for rc,cmd,err in ex.map(one,jobs):
            if rc: raise BuildError(f'{what}: {cmd}\n{err[-4000:]}')

def atomic_dir(final,fn):
    """run fn(tmpdir) and publish the directory"""
    if os.path.isdir(final): return final
    tmp=f'{final}.tmp{os.getpid()}-{threading.get_ident()}'
    shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
    try:
        fn(tmp)
        try: os.rename(tmp,final)
        except OSError:
            if not os.path.isdir(final): raise
    finally: shutil.rmtree(tmp,ignore_errors=True)
    return final

def build_lib(variant):
    v=CONFIGS['variants'][variant]
    files=repo_files()
    key=digest([variant,json.dumps(v,sort_keys=True)]+[f[len(REPO):] for f in files]+[read(f) for f in files]+[read(os.path.join(HERE,'harness','portable_pre.hpp'))])
    final=os.path.join(BUILD,f'lib-{variant}-{key}')
    def go(tmp):
        jobs=[];objs=[]
        for f in files:
            rel=os.path.relpath(f,REPO)
            if not rel.startswith('src/'): continue
            ext=os.path.splitext(f)[1]
            o=os.path.join(tmp,rel.replace('/','_')+'.o')
            if ext=='.cpp':
                fl=list(v['flags'])
                if v.get('plain') and not v.get('portable') and os.path.basename(f) in v['plain']: fl=[x for x in fl if not x.startswith('-fsanitize') ]
                cmd=[v['cxx'],'-std=gnu++20','-I',os.path.join(REPO,'include'),'-I',os.path.join(REPO,'src')]+fl
                if v.get('portable'): cmd+=['-include',os.path.join(HERE,'harness','portable_pre.hpp')]
                jobs.append(cmd+['-c',f,'-o',o])
            elif ext in('.s','.S') and not v.get('portable'):
                jobs.append([v['cc'],'-c',f,'-o',o])
            else: continue
            objs.append(o)
        compile_all(jobs,'library '+variant)
        r=sh(['ar','rcs',os.path.join(tmp,'lib.a')]+objs)
        if r.returncode: raise BuildError(r.stderr)
        for o in objs: os.unlink(o)
    return atomic_dir(final,go)

def build_support(variant):
    """engine + reference model: independent of /repo"""
    v=CONFIGS['variants'][variant]
    srcs=['engine.cpp','ref.cpp']
    hdrs=['engine.hpp','guided.hpp','ref.hpp','ref_consts.hpp']
    san=v.get('support_flags',[])
    key=digest([json.dumps([v['cxx'],san])]+[read(os.path.join(HERE,'harness',f)) for f in srcs+hdrs])
    final=os.path.join(BUILD,f'sup-{key}')
    def go(tmp):
        compile_all([[v['cxx'],'-std=gnu++20','-O2','-g1']+san+['-c',os.path.join(HERE,'harness',s),'-o',os.path.join(tmp,s+'.o')] for s in srcs],'support')
    return atomic_dir(final,go)

def harness_flags(v):
    inc=['-std=gnu++20','-I',os.path.join(REPO,'include'),'-I',os.path.join(HERE,'harness')]+v['harness_flags']
    if v.get('portable'): inc+=['-include',os.path.join(HERE,'harness','portable_pre.hpp')]
    return inc

def harness_headers():
    hs=[os.path.join(HERE,'harness',h) for h in sorted(f for f in os.listdir(os.path.join(HERE,'harness')) if f.endswith('.hpp'))]
    hs+=sorted(glob.glob(os.path.join(HERE,'harness','props','*.hpp')))
    return [read(h) for h in hs]+[read(f) for f in repo_files() if '/include/' in f]

def build_objects(files,variant,what):
    """objects of harness sources shared by several properties, one cached directory per source"""
    v=CONFIGS['variants'][variant]
    out=[]
    for f in files:
        key=digest([json.dumps([v['cxx'],v['harness_flags'],v.get('portable')])]+harness_headers()+[read(f)])
        final=os.path.join(BUILD,f'obj-{os.path.basename(f)}-{variant}-{key}')
        def go(tmp): compile_all([[v['cxx']]+harness_flags(v)+['-c',f,'-o',os.path.join(tmp,'o.o')]],what)
        out.append(os.path.join(atomic_dir(final,go),'o.o'))
    return out

def build_harness(prop,variant):
    v=CONFIGS['variants'][variant]
    lib=build_lib(variant); sup=build_support(variant)
    src=os.path.join(HERE,'harness','props',prop+'.cpp')
    shared=[os.path.join(HERE,'harness',x) for x in ['common.cpp']+PLAN[prop].get('sources',[])]
    key=digest([os.path.basename(lib),os.path.basename(sup),json.dumps(v,sort_keys=True)]+[read(f) for f in [src]+shared]+harness_headers())
    final=os.path.join(BUILD,f'bin-{prop}-{variant}-{key}')
    def go(tmp):
        with ThreadPoolExecutor(max_workers=4) as ex:
            so=[ex.submit(build_objects,[f],variant,'harness '+prop) for f in shared]
            o=os.path.join(tmp,'p.o')
            compile_all([[v['cxx']]+harness_flags(v)+['-c',src,'-o',o]],'harness '+prop)
            objs=[o]+[x for f in so for x in f.result()]
        r=sh([v['cxx']]+v.get('link_flags',[])+[os.path.join(sup,s) for s in ('engine.cpp.o','ref.cpp.o')]+objs[1:]+objs[:1]+[os.path.join(lib,'lib.a'),'-lgmpxx','-lgmp','-lpthread','-o',os.path.join(tmp,'run')])
        if r.returncode: raise BuildError(r.stderr[-4000:])
        os.unlink(o)
    return os.path.join(atomic_dir(final,go),'run')

def siblings(prop,config):
    """other implementations that a run of this property talks to: name=path[,VAR=value];..."""
    out=[]
    for n in PLAN[prop].get('siblings',{}).get(config,[]):
        c=CONFIGS['configs'][n]
        e=''.join(f',{k}={v}' for k,v in c.get('env',{}).items())
        out.append(f"{n}={build_harness(prop,c['variant'])}{e}")
    return ';'.join(out)

def prune():
    """keep the build cache small"""
    try:
        ds=[os.path.join(BUILD,d) for d in os.listdir(BUILD)]
        ds=[d for d in ds if os.path.isdir(d) and '.tmp' not in d]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-260]: shutil.rmtree(d,ignore_errors=True)
    except OSError: pass

def known_findings():
    out=[]
    p=os.path.join(HERE,'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'): out.append(l)
    return out

def main():
    ap=argparse.ArgumentParser()
    ap.add_argument('prop',nargs='?'); ap.add_argument('--tier',default=None); ap.add_argument('--replay'); ap.add_argument('--seed')
    ap.add_argument('--only',default=''); ap.add_argument('--scale',default='1'); ap.add_argument('--configs',default=''); ap.add_argument('--build-only',action='store_true')
    a=ap.parse_args()
    os.makedirs(BUILD,exist_ok=True)
    if a.replay:
        kv={}
        for l in open(a.replay):
            p=l.split()
            if p and not l.startswith('#'): kv[p[0]]=p[1] if len(p)>1 else ''
        c=CONFIGS['configs'][kv['config']]
        exe=build_harness(kv['property'],c['variant'])
        env=dict(os.environ); env.update(c.get('env',{}))
        env['P23_SIBLINGS']=siblings(kv['property'],kv['config'])
        return subprocess.run([exe,'--replay',a.replay],env=env).returncode
    tier=a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in('quick','thorough'): tier='quick'
    seed=int(a.seed or os.environ.get('VERIF_SEED') or '1')
    prop=a.prop; plan=PLAN[prop]
    t0=time.time()
    configs=[c for c in plan[tier]]
    if a.configs: configs=a.configs.split(',')
    variants=sorted({CONFIGS['configs'][(c if isinstance(c,str) else c[0])]['variant'] for c in configs})
    try:
        exes={v:build_harness(prop,v) for v in variants}
        sib={(c if isinstance(c,str) else c[0]):siblings(prop,c if isinstance(c,str) else c[0]) for c in configs}
    except BuildError as e:
        print('BUILD FAILED',e,file=sys.stderr); return 3
    prune()
    if a.build_only: return 0
    results=[];viol=None;inconcl=False
    jobs=os.cpu_count() or 4
    for c in configs:
        name,scale=(c,1.0) if isinstance(c,str) else c
        cfg=CONFIGS['configs'][name]
        env=dict(os.environ)
        for k in list(env):
            if k.startswith('BLS_DISABLE'): env.pop(k)
        env.update(cfg.get('env',{}))
        if sib[name]: env['P23_SIBLINGS']=sib[name]
        out=os.path.join(BUILD,f'out-{prop}-{name}-{os.getpid()}.json')
        for attempt in range(2):
            r=subprocess.run([exes[cfg['variant']],'--tier',tier,'--seed',str(seed),'--config',name,'--jobs','8','--out',out,'--replaydir',os.path.join(HERE,'replays'),'--scale',str(float(scale)*float(a.scale))]+(['--only',a.only] if a.only else [])+(['--skip',','.join(plan['guided_skip'])] if cfg['variant'].startswith('cov') and plan.get('guided_skip') else []),env=env,stdout=subprocess.PIPE,text=True)
            if r.returncode in(0,1): break
            sys.stderr.write(f'{prop} {name}: harness ended with {r.returncode}, attempt {attempt}\n'+r.stdout[-2000:])
        try:
            results.append(json.load(open(out))); os.unlink(out)
        except Exception as e: sys.stderr.write(f'no result file: {e}\n')
        if r.returncode==1: viol=r.stdout; break
        if r.returncode not in(0,1): inconcl=True
    wall=time.time()-t0
    subs={}
    for r in results:
        for k,v in r['subs'].items():
            s=subs.setdefault(k,{'evaluations':0,'nontrivial':0,'discarded':0,'classes':{},'configs':{}})
            for f in('evaluations','nontrivial','discarded'): s[f]+=v[f]
            s['configs'][r['config']]=v['evaluations']
            for l,n in v['classes'].items(): s['classes'][l]=s['classes'].get(l,0)+n
    samples=[];seen=set()
    for r in results:
        for s in r['samples']:
            if s['check'] in seen: continue
            seen.add(s['check']); samples.append(s)
    ev={'property':prop,'tier':tier,'seed':seed,'level':'exploration',
        'coverage':{'evaluations':sum(r['executed'] for r in results),
                    'distinct_nontrivial':sum(r['distinct_nontrivial'] for r in results),
                    'rule':plan['rule'],'samples':samples or ['none: stopped at the first case'],
                    'discarded':sum(r['discarded'] for r in results),
                    'sub_checks':subs,'configurations':{r['config']:{'executed':r['executed'],'distinct_nontrivial':r['distinct_nontrivial'],'wall_s':r['wall_s']} for r in results}},
        'assumptions':plan.get('assumptions',[])+CONFIGS['assumptions'],
        'wall_s':round(wall,2),'violations':1 if viol else 0}
    os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True)
    with open(os.path.join(HERE,'evidence',prop+'.json'),'w') as f: json.dump(ev,f,indent=1)
    for k in known_findings():
        if f'property={prop} ' in k: print('KNOWN-FINDING:',k)
    if viol:
        sys.stdout.write(viol); return 1
    if inconcl:
        print(f'{prop}: inconclusive run',file=sys.stderr); return 3
    print(f'{prop} {tier}: held on {ev["coverage"]["evaluations"]} cases ({ev["coverage"]["distinct_nontrivial"]} distinct non-trivial) in {wall:.1f}s')
    return 0
if __name__=='__main__': sys.exit(main())
