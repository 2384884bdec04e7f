"""helper to write a planted bug: mk(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ text[, demo_sh])"""
import os,subprocess,json,shutil
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STD='''#!/bin/bash
# builds demo.cpp against the library of the current directory; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++20 -O1 -I include "$here/demo.cpp" _build/libbls12-381.a -o "$t/demo" -lpthread || exit 98
timeout 250 "$t/demo"
'''
PRE='''#include <bls12-381/bls12-381.hpp>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <stdexcept>
#include <thread>
using namespace bls12_381;
using Sc = std::array<uint64_t, 4>;
static int bad(const char* m) { std::printf("WRONG: %s\\n", m); return 1; }
'''
def mk(i,prop,needs,breaks,edits,demo,demo_sh=STD,extra={}):
    d='/tmp/mkseed-'+i
    shutil.rmtree(d,ignore_errors=True); subprocess.run(['git','clone','-q','/repo',d],check=True)
    for f,o,n in edits:
        p=os.path.join(d,f); s=open(p).read()
        k=1
        if isinstance(o,tuple): o,k=o
        if s.count(o)<k or (k==1 and s.count(o)!=1 and not isinstance(n,tuple)): print(i,'edit matches',s.count(o),'times:',o[:60]); shutil.rmtree(d); return
        if isinstance(n,tuple): # (text, which occurrence 0-based)
            n,w=n; at=-1
            for _ in range(w+1): at=s.index(o,at+1)
            s=s[:at]+n+s[at+len(o):]
        else: s=s.replace(o,n)
        open(p,'w').write(s)
    diff=subprocess.run(['git','-C',d,'diff'],capture_output=True,text=True).stdout
    shutil.rmtree(d)
    out=os.path.join(H,'seeded',i); os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','w').write(diff)
    open(out+'/demo.cpp','w').write(PRE+demo)
    open(out+'/demo.sh','w').write(demo_sh); os.chmod(out+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(out+'/meta.json','w'),indent=1)
    for k,v in extra.items(): open(out+'/'+k,'w').write(v)
    print('wrote',i)
