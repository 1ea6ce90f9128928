#!/usr/bin/env python3
"""autoref.py SITES.jsonl [KIND...]: applies the rewrites of checker/autoref to scratch copies of /repo, one per function
at a time, and prints those on which a check is not quiet. env: BIN (checker), J (parallel runs)."""
import sys, json, os, shutil, subprocess, tempfile, re, collections
from concurrent.futures import ThreadPoolExecutor
BIN=os.environ.get("BIN","/verif/checker/bin/athenzcheck"); J=int(os.environ.get("J","5"))
sites=[json.loads(l) for l in open(sys.argv[1])]
kinds=sys.argv[2:]
for i,s in enumerate(sites): s["id"]=i
ids=[int(k) for k in kinds if k.isdigit()]
if ids: sites=[s for s in sites if s["id"] in ids]
elif kinds: sites=[s for s in sites if s["Kind"] in kinds]
def apply(batch,d):
    by=collections.defaultdict(list)
    for s in batch: by[s["File"]]+=s["Edits"]
    for f,es in by.items():
        b=open(d+"/"+f,"rb").read()
        for e in sorted(es,key=lambda e:(e["Start"],e["End"]),reverse=True): b=b[:e["Start"]]+e["Text"].encode()+b[e["End"]:]
        open(d+"/"+f,"wb").write(b)
def run(batch,build_only=False):
    d=tempfile.mkdtemp(prefix="ar",dir="/tmp")
    try:
        w=d+"/r"; v=d+"/v"
        shutil.copytree("/repo",w,symlinks=True,ignore=shutil.ignore_patterns(".git")); os.makedirs(v+"/evidence")
        shutil.copy("/verif/known-findings.txt",v)
        apply(batch,w)
        b=subprocess.run(["go","build","./..."],cwd=w,capture_output=True,text=True)
        if b.returncode: return "build",b.stderr
        r=subprocess.run([BIN,"-check","all","-repo",w],env=dict(os.environ,VERIF_DIR=v),capture_output=True,text=True)
        out=r.stdout+r.stderr
        bad=[l for l in out.splitlines() if l.startswith("VIOLATION")]
        if bad or r.returncode: return "alarm",out
        return "quiet",""
    finally: shutil.rmtree(d)
def show(s): return "%s %s:%d %s #%d"%(s["Kind"],s["File"],s["Line"],s["Func"],s["id"])
def work(batch):
    st,out=run(batch)
    if st=="quiet": return [(s,"quiet","") for s in batch]
    if len(batch)==1: return [(batch[0],st,out)]
    if st=="build":
        # set the offending files' sites aside
        bad=set(re.findall(r"^(\S+\.go):\d+",out,re.M)); bad={b[2:] if b.startswith("./") else b for b in bad}
        a=[s for s in batch if s["File"] not in bad]; b=[s for s in batch if s["File"] in bad]
        if a and b:
            m=len(b)//2
            return work(a)+(work(b[:m])+work(b[m:]) if m else work(b))
    m=len(batch)//2
    return work(batch[:m])+work(batch[m:])
batches=[]
for k in sorted(set(s["Kind"] for s in sites)):
    left=[s for s in sites if s["Kind"]==k]
    while left:
        used=set(); b=[]; rest=[]
        for s in left:
            key=(s["File"],s["Func"])
            if key in used: rest.append(s)
            else: used.add(key); b.append(s)
        batches.append(b); left=rest
if ids: batches=[[s] for s in sites]
M=int(os.environ.get("MIX","0"))
if M:
    # random batches of M rewrites per function which do not overlap
    import random
    random.seed(int(os.environ.get("SEED","1")))
    by=collections.defaultdict(list)
    for s in sites: by[(s["File"],s["Func"])].append(s)
    batches=[]
    for _ in range(int(os.environ.get("N","40"))):
        b=[]
        for k,l in by.items():
            got=[]
            for s in random.sample(l,len(l)):
                es=[e for e in s["Edits"]]
                if s["Kind"] in ("body-helper","named-results") and got: continue
                if all(e["End"]<a or e["Start"]>z or (a==z==e["Start"]==e["End"]) for e in es for a,z in got): got+=[(e["Start"],e["End"]) for e in es]; b.append(s)
                if sum(1 for t in b if (t["File"],t["Func"])==k)>=M or s["Kind"] in ("body-helper","named-results"): break
        batches.append(b)
batches.sort(key=len,reverse=True)
n=collections.Counter()
with ThreadPoolExecutor(J) as ex:
    for res in ex.map(work,batches):
        for s,st,out in res:
            n[st]+=1
            if st=="alarm":
                ls=out.splitlines(); print("ALARM",show(s)," ".join(re.findall(r"VIOLATION property=(C\d+)",out)),"|",next((l for l in ls if " rule " in l),ls[-1] if ls else "")[:200],flush=True)
            if st=="build" and os.environ.get("SHOWB"): print("BUILD",show(s),out[:200].replace("\n"," "),flush=True)
        print("..",dict(n),flush=True)
