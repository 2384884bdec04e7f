#!/usr/bin/env python3
"""Mutation study: small random changes to /repo's sources; those that survive the repository's own tests are shown to the
quick checks. Reports mutants that survive both (equivalent, or a gap to close).
usage: mutate.py --seed S --count N --out LOG [--files f,...] [--work DIR] [--scale X]"""
import re,random,subprocess,os,sys,json,argparse,shutil,time
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c,**k): return subprocess.run(c,capture_output=True,text=True,**k)
FILES={'src/fp.cpp':6,'src/g.cpp':6,'src/pairing.cpp':2,'src/scalar.cpp':3,'src/signatures.cpp':6,'src/sha256.cpp':2,'src/arithmetic.cpp':2,'src/arithmetic.s':3,
 'include/bls12-381/scalar.hpp':4,'include/bls12-381/fp.hpp':2,'include/bls12-381/g.hpp':1,'include/bls12-381/pairing.hpp':1,'include/bls12-381/signatures.hpp':1}
ORDER={'src/fp.cpp':['P02','P03','P04','P06','P01','P05'],'src/g.cpp':['P07','P08','P09','P10','P11','P12'],'src/pairing.cpp':['P16','P17'],'src/scalar.cpp':['P05','P02'],
 'src/signatures.cpp':['P13','P14','P15','P18','P19','P20','P21','P22','P12'],'src/sha256.cpp':['P13','P14','P12'],'src/arithmetic.cpp':['P01'],'src/arithmetic.s':['P01'],
 'include/bls12-381/scalar.hpp':['P05','P02','P03','P08','P04'],'include/bls12-381/fp.hpp':['P02','P01','P06','P03'],'include/bls12-381/g.hpp':['P07','P08','P10'],'include/bls12-381/pairing.hpp':['P16','P17'],'include/bls12-381/signatures.hpp':['P20','P22']}
ALL=[] # nothing beyond the checks listed for the file: survivors are looked at by hand
def code_lines(s,asm):
    out=[]
    blk=False
    for i,l in enumerate(s):
        t=l.strip()
        if blk:
            if '*/' in t: blk=False
            continue
        if t.startswith('/*'):
            if '*/' not in t: blk=True
            continue
        if not t or t.startswith(('//','#','using','namespace','extern','.')): continue
        if asm and (t.startswith('_') or t.endswith(':')): continue
        out.append(i)
    return out
def mutate(l,r,asm):
    """one random change of a line, or None"""
    ops=[]
    body=l.split('//')[0] if not asm else l
    if asm:
        m=re.match(r'(\s+)(\w+)(\s+)(.*)$',body)
        if not m: return None
        op=m.group(2)
        sw={'adc':['add'],'add':['adc','sub'],'sub':['add','sbb'],'sbb':['sub'],'adcx':['adox'],'adox':['adcx'],'cmovae':['cmova','cmovb'],'cmovb':['cmovbe'],'cmovc':['cmovbe']}
        if op in sw: ops.append(lambda: body.replace(op,r.choice(sw[op]),1))
        def off():
            ms=list(re.finditer(r'0x([0-9a-f]+)\(',body))
            if not ms: return None
            x=r.choice(ms); v=int(x.group(1),16)^8
            return body[:x.start()]+f'0x{v:02x}('+body[x.end():]
        ops.append(off)
        if r.random()<0.2 and op not in('push','pop','retq','ret','jmp'): ops.append(lambda: '')
    else:
        def sub(pat,choices):
            ms=list(re.finditer(pat,body))
            if not ms: return
            def f():
                x=r.choice(ms); c=[y for y in choices(x.group(0)) if y!=x.group(0)]
                if not c: return None
                return body[:x.start()]+r.choice(c)+body[x.end():]
            ops.append(f)
        sub(r'(?<![<>=!\-])(?:<=|>=|==|!=)(?!=)',lambda g:{'<=':['<','=='],'>=':['>','=='],'==':['!=','>='],'!=':['==']}[g])
        sub(r'(?<=[\w\)\]] )[<>](?= [\w\(])',lambda g:['<=','>='] if g=='<' else ['>=','!='])
        sub(r'(?<=[\w\)\]])\s*[+\-]\s*(?=[\w\(])',lambda g:[' - '] if '+' in g else [' + '])
        sub(r'&&|\|\|',lambda g:['||' if g=='&&' else '&&'])
        sub(r'(?<![\w\'.])\d+(?![\w\'.])',lambda g:[str(int(g)+1),str(max(0,int(g)-1)),'0' if int(g) else '1'])
        sub(r"0x[0-9a-fA-F']+",lambda g:['0x%x'%(int(g.replace("'",''),16)^(1<<r.randrange(0,max(1,4*(len(g.replace("'",''))-2)))))])
        sub(r'\btrue\b|\bfalse\b',lambda g:['true','false'])
        sub(r'\bc0\b|\bc1\b|\bc2\b',lambda g:['c0','c1','c2'])
        sub(r'(?<=[.>( ])[xyz](?=[.,;)\s])',lambda g:['x','y','z'])
        sub(r'\.(?:add|subtract|multiply)\(',lambda g:['.add(','.subtract(','.multiply('])
        sub(r'\b_(?:add|subtract|multiply)\(',lambda g:['_add(','_subtract(','_multiply('])
        sub(r'\.(?:isZero|isOne|isAffine|isOnCurve|inCorrectSubgroup|isQuadraticNonResidue|isValid|isEven)\(\)',lambda g:['.isZero()','.isOne()'] )
        if re.match(r'\s*if\s*\(.*\)\s*$',body): ops.append(lambda: re.sub(r'if\s*\((.*)\)\s*$',r'if(!(\1))',body)); ops.append(lambda: re.sub(r'if\s*\((.*)\)\s*$',r'if((\1) && false)',body)); ops.append(lambda: re.sub(r'if\s*\((.*)\)\s*$',r'if(true || (\1))',body))
        if re.match(r'\s*if\s*\(.*\)\s*$',body):
            def part():
                m=re.match(r'(\s*if\s*\()(.*)(\)\s*)$',body); ps=re.split(r'(\s*(?:&&|\|\|)\s*)',m.group(2))
                if len(ps)<3: return None
                k=r.choice(range(0,len(ps),2))
                q=ps[:k]+ps[k+2:] if k+1<len(ps) else ps[:k-1]
                return m.group(1)+''.join(q)+m.group(3)
            ops.append(part)
        if re.match(r'\s*[\w\[\]\.\->:(<]+.*;\s*$',body) and not re.match(r'\s*(return|break|continue|u?int|const|auto|fp|g1|g2|array|vector|optional|bool|size_t|static|case|default|public|private|friend|explicit|constexpr|template|inline|void)\b',body):
            ops.append(lambda: re.match(r'\s*',body).group(0)+';')
        def swap():
            m=re.search(r'\((&?[\w\.\[\]]+), (&?[\w\.\[\]]+), (&?[\w\.\[\]]+)\);',body)
            if not m: return None
            return body[:m.start()]+f'({m.group(1)}, {m.group(3)}, {m.group(2)});'+body[m.end():]
        ops.append(swap)
    r.shuffle(ops)
    for o in ops:
        n=o()
        if n is not None and n.rstrip()!=body.rstrip(): return n
    return None
def main():
    ap=argparse.ArgumentParser(); ap.add_argument('--seed',type=int,default=1); ap.add_argument('--count',type=int,default=100); ap.add_argument('--out',default='/tmp/mut.log'); ap.add_argument('--files',default=''); ap.add_argument('--work',default='/tmp/mut'); ap.add_argument('--scale',default='0.5'); ap.add_argument('--jobs',default='8')
    a=ap.parse_args(); r=random.Random(a.seed)
    W=a.work; shutil.rmtree(W,ignore_errors=True); sh(['git','clone','-q','/repo',W])
    env=dict(os.environ,CC='/usr/bin/gcc',CXX='/usr/bin/g++')
    sh(['cmake','-S',W,'-B',W+'/_build','-G','Ninja','-DCMAKE_BUILD_TYPE=Release','-DCMAKE_POLICY_VERSION_MINIMUM=3.5','-DCMAKE_PROJECT_INCLUDE=/opt/vp/cases.cmake'],env=env)
    st=json.load(open('/opt/vp/BASELINE.json'))['stable']
    files=a.files.split(',') if a.files else list(FILES)
    src={f:open(os.path.join(W,f)).read().split('\n') for f in files}
    lines={f:code_lines(src[f],f.endswith('.s')) for f in files}
    # constant tables would drown the logic: keep one in twenty
    for f in files: lines[f]=[i for i in lines[f] if not re.search(r"(0x[0-9a-fA-F']+, ){3}",src[f][i]) or r.random()<0.05]
    log=open(a.out,'a')
    def say(*x):
        print(*x,file=log,flush=True)
    tally={'nobuild':0,'tests':0,'caught':0,'survived':0}
    done=0; seen=set()
    while done<a.count:
        f=r.choices(files,[FILES.get(x,1) for x in files])[0]; i=r.choice(lines[f]); n=mutate(src[f][i],r,f.endswith('.s'))
        if n is None or (f,i,n) in seen: continue
        seen.add((f,i,n)); done+=1
        m=src[f][:]; m[i]=n
        open(os.path.join(W,f),'w').write('\n'.join(m))
        try:
            b=sh(['ninja','-C',W+'/_build','-j',a.jobs,'unittests','vp_cases'])
            if b.returncode: tally['nobuild']+=1; continue
            sh(['ctest','--test-dir',W+'/_build','-j'+a.jobs,'--timeout','60','--stop-on-failure','--output-junit',W+'/_build/ctest.xml'])
            sh(['python3','/opt/vp/results.py',W+'/_build/o.json','junit:'+W+'/_build/ctest.xml'])
            o=set(json.load(open(W+'/_build/o.json'))['passed'])
            if any(t not in o for t in st): tally['tests']+=1; continue
            desc=f'{f}:{i+1}: `{src[f][i].strip()}` -> `{n.strip()}`'
            order=ORDER.get(f,[])+[p for p in ALL if p not in ORDER.get(f,[])]
            t=time.time(); hit=None; odd=[]
            for p in order:
                if not os.path.exists(os.path.join(H,'harness','props',p+'.cpp')): continue
                c=sh(['python3',os.path.join(H,'run.py'),p,'--scale',a.scale],env=dict(os.environ,VERIF_REPO=W))
                if c.returncode==1: hit=p; break
                if c.returncode!=0: odd.append(p+':'+str(c.returncode)+c.stderr[-200:].replace('\n',' '))
            if hit: tally['caught']+=1; say('caught',hit,desc,f'{time.time()-t:.0f}s',' '.join(odd))
            else: tally['survived']+=1; say('SURVIVED',desc,f'{time.time()-t:.0f}s',' '.join(odd))
        finally:
            open(os.path.join(W,f),'w').write('\n'.join(src[f]))
        if done%10==0: say('tally',done,tally)
    say('tally',done,tally)
    shutil.rmtree(W,ignore_errors=True)
main()
