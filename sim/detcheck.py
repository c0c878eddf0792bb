#!/usr/bin/env python3
"""detcheck.py PROFILE FROM TO: runs every seed twice, under load, and compares digests."""
import subprocess,json,sys,os
from concurrent.futures import ThreadPoolExecutor
prof,a,b=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
env=dict(os.environ,GODEBUG="asyncpreemptoff=1",GOMAXPROCS="1",GOGC="off")
def one(s):
    p=subprocess.run([os.environ.get("SIM_BIN","/verif/.build/sim"),"run",prof,str(s)],env=env,capture_output=True,text=True)
    try: r=json.loads(p.stdout)
    except Exception: return s,("crash",p.stderr[:300])
    return s,(r['digest'],r.get('err'))
jobs=[s for s in range(a,b)]*2
with ThreadPoolExecutor(14) as ex: rs=list(ex.map(one,jobs))
d={}; bad=0
for s,r in rs:
    if s in d and d[s]!=r: bad+=1; print("MISMATCH",s,d[s],r)
    d[s]=r
    if r[0]=="crash" or r[1]: print(s,r)
print(len(d),"seeds",bad,"mismatches")
