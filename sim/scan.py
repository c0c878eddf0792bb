#!/usr/bin/env python3
"""scan.py PROFILE FROM N: runs seeds, lists violation classes with example seeds."""
import subprocess,json,sys,os,collections
from concurrent.futures import ThreadPoolExecutor
prof,a,n=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
B=os.environ.get("SIM_BIN","/verif/.build/sim")
env=dict(os.environ,GODEBUG="asyncpreemptoff=1",GOMAXPROCS="1",GOGC="off")
def one(s):
    try: p=subprocess.run([B,"run",prof,str(s)],env=env,capture_output=True,text=True,timeout=100)
    except subprocess.TimeoutExpired: return s,{"err":"TIMEOUT"}
    try: return s,json.loads(p.stdout)
    except Exception: return s,{"err":"crash: "+p.stderr[:1500]}
c=collections.OrderedDict(); errs=collections.OrderedDict(); pr=collections.Counter(); fl=collections.Counter(); st=collections.Counter()
with ThreadPoolExecutor(8) as ex:
    for s,r in ex.map(one,range(a,a+n)):
        if r.get("err"): errs.setdefault(r["err"][:1500],[]).append(s)
        pr.update(r.get("probes") or {}); fl.update(r.get("faults") or {}); st.update(r.get("stats") or {})
        seen=set()
        for v in r.get("violations") or []:
            k=(v["property"],v["class"])
            if k in seen: continue
            seen.add(k); c.setdefault(k,[]).append((s,v["message"][:300]))
print("probes",dict(pr)); print("faults",dict(fl)); print("stats",dict(st))
for k,l in sorted(c.items()): print(k,len(l),[x[0] for x in l[:5]]); print("     ",l[0][1])
for e,l in list(errs.items())[:4]: print("ERR",len(l),l[:4],e[:600])
