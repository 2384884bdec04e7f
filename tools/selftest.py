#!/usr/bin/env python3
"""Validates the reference model: published vectors, and Python's hashlib/hmac/pow on random inputs."""
import hashlib,hmac,os,random,subprocess,sys,tempfile
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
def main():
    sys.path.insert(0,H)
    import run
    out=os.path.join(run.BUILD,'selftest'); os.makedirs(run.BUILD,exist_ok=True)
    d=run.build_support('native')
    r=subprocess.run(['g++','-std=gnu++20','-O2',os.path.join(H,'harness','selftest.cpp'),os.path.join(d,'ref.cpp.o'),'-lgmpxx','-lgmp','-o',out])
    if r.returncode: return 1
    if subprocess.run([out]).returncode: return 1
    g=random.Random(7); lines=[]; want=[]
    rb=lambda n: bytes(g.getrandbits(8) for _ in range(n))
    hx=lambda b:'x'+b.hex()
    def expand(prk,info,L):
        t=b'';o=b'';i=1
        while len(o)<L: t=hmac.new(prk,t+info+bytes([i]),hashlib.sha256).digest(); o+=t; i+=1
        return o[:L]
    def xmd(m,dst,L):
        dp=dst+bytes([len(dst)]); b0=hashlib.sha256(bytes(64)+m+L.to_bytes(2,'big')+b'\0'+dp).digest()
        b=hashlib.sha256(b0+b'\1'+dp).digest(); o=b; i=2
        while len(o)<L: b=hashlib.sha256(bytes(x^y for x,y in zip(b0,b))+bytes([i])+dp).digest(); o+=b; i+=1
        return o[:L]
    for n in list(range(0,140))+[1000,4096]:
        m=rb(n); k=rb(g.randrange(0,140)); L=g.randrange(1,400); dst=rb(g.randrange(1,256))
        for l,w in ((f'sha256 {hx(m)}',hashlib.sha256(m).digest()),(f'hmac {hx(k)} {hx(m)}',hmac.new(k,m,hashlib.sha256).digest()),
                    (f'extract {hx(k)} {hx(m)}',hmac.new(k or bytes(32),m,hashlib.sha256).digest()),(f'expand {hx(rb(32) if 0 else k)} {hx(m)} {L}',expand(k,m,L)),(f'xmd {hx(m)} {hx(dst)} {L}',xmd(m,dst,L))):
            lines.append(l); want.append(w.hex())
    for _ in range(300):
        a=g.getrandbits(384)%P; b=g.getrandbits(384)%P; A=a.to_bytes(48,'big'); B=b.to_bytes(48,'big')
        lines+= [f'mulmod {hx(A)} {hx(B)}',f'inv {hx(A)}',f'pow {hx(A)} {hx(B)}']
        want+= [(a*b%P).to_bytes(48,'big').hex(),pow(a,-1,P).to_bytes(48,'big').hex(),pow(a,b,P).to_bytes(48,'big').hex()]
    got=subprocess.run([out,'cli'],input='\n'.join(lines)+'\n',capture_output=True,text=True).stdout.split('\n')
    for l,x,w in zip(lines,got,want):
        if x!=w: print('selftest: ',l[:80],'got',x[:64],'want',w[:64]); return 1
    print(f'selftest: {len(lines)} random cases agree with Python')
    return 0
if __name__=='__main__': sys.exit(main())
