#!/usr/bin/env python3
"""Undoes each repair of /repo separately in a scratch copy and runs the check that should report it.
usage: revertcheck.py [commit ...]"""
import subprocess,sys,os,shutil,time
M={'f424dc6':['P05'],'2715207':['P01','P05'],'9acc0fd':['P05'],'f5f7d3f':['P10'],'8453f7d':['P11'],'e1ea867':['P11'],'6c0aca1':['P04'],'fdf0426':['P04','P24'],
   'd08ff6f':['P12'],'ee52eb0':['P13','P24'],'bb926a3':['P05','P24'],'4b982fa':['P12'],'5e09a9a':['P17','P24'],'db63903':['P05','P24'],'cec2220':['P13'],'d350857':['P16','P17']}
want=sys.argv[1:] or list(M)
for c in want:
    d='/tmp/rv-'+c
    shutil.rmtree(d,ignore_errors=True)
    subprocess.run(['git','clone','-q','/repo',d],check=True)
    p=subprocess.run(['git','-C','/repo','diff',c+'^',c],capture_output=True).stdout
    r=subprocess.run(['git','-C',d,'apply','-R','--recount','-C1'],input=p,capture_output=True)
    if r.returncode: print(c,'does not revert',r.stderr.decode()[:300]); continue
    for prop in M[c]:
        t=time.time()
        r=subprocess.run(['python3','/verif/run.py',prop,'--tier','quick'],env=dict(os.environ,VERIF_REPO=d),capture_output=True,text=True)
        print(c,prop,'CAUGHT' if 'VIOLATION property='+prop in r.stdout else 'missed',r.returncode,f'{time.time()-t:.0f}s',r.stdout.strip().split('\n')[0][:160],flush=True)
    shutil.rmtree(d)
