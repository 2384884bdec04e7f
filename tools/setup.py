#!/usr/bin/env python3
"""Validates the reference model and builds the harness of every property in the configurations of its quick tier."""
import os,sys
from concurrent.futures import ThreadPoolExecutor
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,H); sys.path.insert(0,os.path.join(H,'tools'))
import run,selftest
from plan import PLAN,CONFIGS
os.makedirs(run.BUILD,exist_ok=True)
if selftest.main(): sys.exit(1)
def variants(p):
    pl=PLAN[p]; cs=[c if isinstance(c,str) else c[0] for c in pl['quick']]
    for c in list(cs): cs+=pl.get('siblings',{}).get(c,[])
    return sorted({CONFIGS['configs'][c]['variant'] for c in cs})
jobs=[(p,v) for p in sorted(PLAN) for v in variants(p)]
vs=sorted({v for _,v in jobs})
with ThreadPoolExecutor(max_workers=8) as ex:
    list(ex.map(run.build_lib,vs)); list(ex.map(run.build_support,vs))
    list(ex.map(lambda j: run.build_objects([os.path.join(H,'harness',f) for f in ('common.cpp','ops.cpp')],j,'shared'),vs))
    list(ex.map(lambda j: run.build_harness(*j),jobs))
print('built',len(jobs),'harnesses')
