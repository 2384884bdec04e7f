#!/usr/bin/env python3
"""Development-time script: produces harness/ref_consts.hpp (committed) and validates every constant in it.

The isogeny coefficient tables are the ones of RFC 9380 appendix E.2/E.3 (read out of the base revision of /repo,
converted from Montgomery form).  They are validated here without reference to /repo's code: as rational maps they
send the curve E' of RFC 9380 8.8 to the BLS12-381 curve (checked on more points than the degree of the identity),
they are group homomorphisms of degree 11 / 3, and the automorphism of the target curve left free by that is pinned
by the first printed coefficient of the RFC tables."""
import re, random, subprocess, sys
p=0x1A0111EA397FE69A4B1BA7B6434BACD764774B84F38512BF6730D2A0F6B0F6241EABFFFEB153FFFFB9FEFFFFFFFFAAAB
r=0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
t=-0xd201000000010000
assert r==t**4-t**2+1 and p==(t-1)**2*(t**4-t**2+1)//3+t
rng=random.Random(1)
inv=lambda a:pow(a,-1,p)
Ri=inv(pow(2,384,p))
src=subprocess.run(['git','-C','/repo','show','b98c853:src/g.cpp'],capture_output=True,text=True).stdout
def consts(seg):
    out=[]
    for m in re.finditer(r'fp\(\{([^}]*)\}\)',seg):
        l=[int(x.strip(),0) for x in m.group(1).split(',')]
        out.append(sum(v<<(64*i) for i,v in enumerate(l))*Ri%p)
    return out
i0=src.index('isogenyConstantsG1[4][16]'); i1=src.index('fp (*params)[16]')
c=consts(src[i0:i1]); assert len(c)==64
g1=[c[16*i:16*i+16] for i in range(4)]
j0=src.index('g2 g2::isogenyMap()'); 
# --- G1 checks
A1=0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d
B1=0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0
assert g1[0][0]==0x11a05f2b1e833340b809101dd99815856b303e88a2d7005ff2627b56cdb4e2c85610c2d5f2e62d6eaeac1662734649b7
def trim(v):
    v=list(v)
    while v and v[-1]==0: v.pop()
    return v
g1=[trim(v) for v in g1]
assert [len(v)-1 for v in g1]==[11,10,15,15] and g1[1][-1]==1 and g1[3][-1]==1
ev=lambda P,x:sum(0 for _ in ()) if not P else __import__('functools').reduce(lambda a,b:(a*x+b)%p,reversed(P),0)
def add(P,Q,A):
    if P is None: return Q
    if Q is None: return P
    if P[0]==Q[0]:
        if (P[1]+Q[1])%p==0: return None
        l=(3*P[0]*P[0]+A)*inv(2*P[1])%p
    else: l=(Q[1]-P[1])*inv(Q[0]-P[0])%p
    x=(l*l-P[0]-Q[0])%p
    return (x,(l*(P[0]-x)-P[1])%p)
def iso1(P):
    if P is None: return None
    x,y=P; xd=ev(g1[1],x); yd=ev(g1[3],x)
    if xd==0 or yd==0: return None
    return (ev(g1[0],x)*inv(xd)%p, y*ev(g1[2],x)*inv(yd)%p)
def rnd1():
    while True:
        x=rng.randrange(p); v=(x**3+A1*x+B1)%p; y=pow(v,(p+1)//4,p)
        if y*y%p==v: return (x,y if rng.random()<.5 else p-y)
for _ in range(150):
    P=rnd1();Q=rnd1();a=iso1(P);b=iso1(Q)
    assert (a[1]**2-a[0]**3-4)%p==0
    assert add(a,b,0)==iso1(add(P,Q,A1))
    assert add(a,a,0)==iso1(add(P,P,A1))
print("iso1 ok")
h1=(t-1)**2//3
n1=h1*r
assert n1==p+1-(t+1)
# kernel x-coordinates: roots of x_den in Fp, and are they x-coords of E'(Fp) points?
def polypow(base,e,mod):
    # base^e mod mod, lists low-first
    def mulmod(a,b):
        res=[0]*(len(a)+len(b)-1)
        for i,u in enumerate(a):
            if u:
                for j,v in enumerate(b): res[i+j]=(res[i+j]+u*v)%p
        d=len(mod)-1; lead=inv(mod[-1])
        for i in range(len(res)-1,d-1,-1):
            q=res[i]*lead%p
            if q:
                for j in range(d+1): res[i-d+j]=(res[i-d+j]-q*mod[j])%p
        return res[:d]
    r_=[1]
    for b in bin(e)[2:]:
        r_=mulmod(r_,r_)
        if b=='1': r_=mulmod(r_,base)
    return r_
def gcd(a,b):
    a,b=trim(a),trim(b)
    while b:
        while len(a)>=len(b):
            q=a[-1]*inv(b[-1])%p;s=len(a)-len(b)
            for i in range(len(b)): a[s+i]=(a[s+i]-q*b[i])%p
            a=trim(a)
            if not a: break
        a,b=b,a
    return [v*inv(a[-1])%p for v in a]
def roots(f):
    xp=polypow([0,1],p,f); xp=xp+[0]*(2-len(xp)); xp[1]=(xp[1]-1)%p
    g=gcd(f,xp)
    out=[]
    def split(g):
        if len(g)<=1: return
        if len(g)==2: out.append(-g[0]*inv(g[1])%p); return
        while True:
            a=rng.randrange(p); h=polypow([a,1],(p-1)//2,g); h=h+[0]*(1-len(h)); h[0]=(h[0]-1)%p
            d=gcd(g,h)
            if 1<len(d)<len(g): 
                split(d)
                # g/d
                q=[];a_=list(g)
                while len(a_)>=len(d):
                    c_=a_[-1]*inv(d[-1])%p;s=len(a_)-len(d);q.append(c_)
                    for i in range(len(d)): a_[s+i]=(a_[s+i]-c_*d[i])%p
                    a_.pop()
                split(q[::-1]); return
    split(g); return out
rx=roots(g1[1]); ry=roots(g1[3])
print("roots of x_den",len(rx),"roots of y_den",len(ry), set(rx)==set(ry))
for x0 in sorted(set(rx)|set(ry)):
    v=(x0**3+A1*x0+B1)%p
    print(hex(x0), "on E'(Fp):", pow(v,(p-1)//2,p) in (0,1))

# --- G2
seg=src[j0:src.index('fp2 t0, t1, t2, t3;',j0)]
c=consts(seg); assert len(c)==32
c=[(c[2*i],c[2*i+1]) for i in range(16)]
g2=[c[4*i:4*i+4] for i in range(4)]
class E:
    def __init__(s,a,b=0): s.a=a%p; s.b=b%p
    def __add__(s,o): return E(s.a+o.a,s.b+o.b)
    def __sub__(s,o): return E(s.a-o.a,s.b-o.b)
    def __mul__(s,o):
        if isinstance(o,int): return E(s.a*o,s.b*o)
        return E(s.a*o.a-s.b*o.b,s.a*o.b+s.b*o.a)
    def inv(s):
        n=inv(s.a*s.a+s.b*s.b); return E(s.a*n,-s.b*n)
    def __eq__(s,o): return s.a==o.a and s.b==o.b
    def z(s): return s.a==0 and s.b==0
    def __pow__(s,e):
        r_=E(1)
        for b in bin(e)[2:]:
            r_=r_*r_
            if b=='1': r_=r_*s
        return r_
A2=E(0,240);B2=E(1012,1012)
def trim2(v):
    v=list(v)
    while v and v[-1].z(): v.pop()
    return v
T2=[trim2([E(*q) for q in v]) for v in g2]
assert [len(v)-1 for v in T2]==[3,2,3,3] and T2[1][-1]==E(1) and T2[3][-1]==E(1)
# first coefficient as printed in RFC 9380 E.3: k_(1,0)
assert g2[0][0][0]==0x5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97d6
assert g2[0][0][0]==g2[0][0][1]
def ev2(P,x):
    r_=E(0)
    for k in reversed(P): r_=r_*x+k
    return r_
def sqrt2(v):
    # p = 3 mod 4
    a1=v**((p-3)//4); alpha=a1*a1*v; x0=a1*v
    if alpha==E(-1): c_=E(0,1)*x0
    else: c_=((E(1)+alpha)**((p-1)//2))*x0
    return c_ if c_*c_==v else None
def add2(P,Q,A):
    if P is None: return Q
    if Q is None: return P
    if P[0]==Q[0]:
        if (P[1]+Q[1]).z(): return None
        l=(P[0]*P[0]*3+A)*(P[1]*2).inv()
    else: l=(Q[1]-P[1])*(Q[0]-P[0]).inv()
    x_=l*l-P[0]-Q[0]
    return (x_,l*(P[0]-x_)-P[1])
def iso2(P):
    x_,y_=P; return (ev2(T2[0],x_)*ev2(T2[1],x_).inv(), y_*ev2(T2[2],x_)*ev2(T2[3],x_).inv())
def rnd2():
    while True:
        x_=E(rng.randrange(p),rng.randrange(p)); y_=sqrt2(x_*x_*x_+A2*x_+B2)
        if y_: return (x_,y_)
for _ in range(40):
    P=rnd2();Q=rnd2();a=iso2(P);b=iso2(Q)
    assert a[1]*a[1]==a[0]*a[0]*a[0]+E(4,4)
    s_=add2(a,b,E(0)); q_=iso2(add2(P,Q,A2)); assert s_[0]==q_[0] and s_[1]==q_[1]
print("iso2 ok")
# cofactors
h2=(t**8-4*t**7+5*t**6-4*t**4+6*t**3-4*t**2-4*t+13)//9
h2eff=h2*(3*t*t-3)
assert h2eff==0xbc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551
h=lambda v:'"%x"'%v
with open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../harness/ref_consts.hpp','w') as f:
    f.write('// generated and validated by tools/gen_consts.py\n#pragma once\n')
    for n,v in (('ISO1_XN',g1[0]),('ISO1_XD',g1[1]),('ISO1_YN',g1[2]),('ISO1_YD',g1[3])):
        f.write('static const char* %s[] = {%s};\n'%(n,', '.join(h(k) for k in v)))
    for n,v in (('ISO2_XN',T2[0]),('ISO2_XD',T2[1]),('ISO2_YN',T2[2]),('ISO2_YD',T2[3])):
        f.write('static const char* %s[][2] = {%s};\n'%(n,', '.join('{%s, %s}'%(h(k.a),h(k.b)) for k in v)))
    f.write('static const char* H1_HEX = %s;\nstatic const char* H2_HEX = %s;\nstatic const char* H2EFF_HEX = %s;\n'%(h(h1),h(h2),h(h2eff)))
    f.write('static const char* ISO1_KERNEL_X[] = {%s};\n'%', '.join(h(k) for k in sorted(set(rx))))
print("written")
