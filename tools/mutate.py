#!/usr/bin/env python3
"""Development: measure the checks on random one-line changes of the library that still pass the test suite.
  mutate.py N SEED SLOT [SECS] [FILE-REGEX]   results appended to /tmp/mut/SLOT.log
Each change is made in a scratch copy bound over /repo in a private mount namespace; nothing here is run by a check."""
import json, os, random, re, shutil, subprocess, sys, time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("MUT_NS")!="1":
    slot=sys.argv[3]; wt="/tmp/mut/wt_"+slot; shutil.rmtree(wt,ignore_errors=True); os.makedirs("/tmp/mut",exist_ok=True); subprocess.run(["cp","-a","/repo",wt],check=True)
    os.environ["MUT_NS"]="1"; os.environ["VERIF_BUILD"]="/tmp/mut/b_"+slot
    r=subprocess.run(["unshare","-Urm","bash","-c","mount --bind %s /repo && exec python3 %s %s"%(wt,os.path.abspath(__file__)," ".join("'%s'"%a for a in sys.argv[1:]))])
    shutil.rmtree(wt,ignore_errors=True); shutil.rmtree("/tmp/mut/b_"+slot,ignore_errors=True); sys.exit(r.returncode)
sys.path.insert(0,V); import build as B
N=int(sys.argv[1]); seed=int(sys.argv[2]); slot=sys.argv[3]; secs=float(sys.argv[4]) if len(sys.argv)>4 else 8; rx=sys.argv[5] if len(sys.argv)>5 else "."
NW=int(os.environ.get("MUT_W","4")); rnd=random.Random(seed); R="/repo"
files=[f for f in sorted(os.listdir(R+"/src")) if re.search(r"\.[ch]$",f) and f not in("uthash.h","utarray.h","utlist.h","utringbuffer.h") and not re.search(r"binding_internal_x",f) and re.search(rx,f)]
files=["src/"+f for f in files]+(["connectors/kokkos/ccs-kokkos-connector.cpp"] if re.search(rx,"kokkos") else [])
def ops(l):
    o=[]; s=l.strip(); ind=l[:len(l)-len(l.lstrip())]
    if re.search(r"CCS_RAISE|ETOCASE|^\s*\w+ = NULL;",l): return []
    if not s or s.startswith(("*","/*","//","#","case","default","static","extern","}","{","goto","return","break","typedef","struct","ccs_","size_t","int ","const","uint","char","&")): pass
    elif s.endswith(";") and s.count("(")==s.count(")") and ind: o.append(ind+";")
    if s.startswith("if (") and s.count("(")==s.count(")"):
        m=re.match(r"if \((.*)\)( \{)?$",s)
        if m: o.append(ind+"if (!(%s))%s"%(m.group(1),m.group(2) or "")); o.append(ind+"if (0 && (%s))%s"%(m.group(1),m.group(2) or ""))
    for a,b in((" < "," <= ")," <= | < ".split("|"),(" > "," >= "),(" >= "," > "),(" == "," != "),(" != "," == "),(" && "," || "),(" || "," && "),(" + "," - "),(" - "," + "),(" += "," = "),("++","--")):
        if a in l and not s.startswith(("*","/*","//","#")): o.append(l.replace(a,b,1))
    for m in re.finditer(r"(?<![\w.])([012])(?![\w.])",l):
        if not s.startswith(("*","/*","//","#")): o.append(l[:m.start()]+str(int(m.group(1))+1)+l[m.end():])
    for a,b in(("CCS_TRUE","CCS_FALSE"),("CCS_FALSE","CCS_TRUE"),(", i)",", 0)"),("[i]","[0]"),("ccs_retain_object","(void)"),("->lower","->upper"),("_FLOAT","_INT"),("memcpy","memmove")):
        if a in l and a!="memcpy": o.append(l.replace(a,b,1))
    if re.search(r"^\s*continue;",l): o.append(ind+"break;")
    if re.search(r"^\s*return CCS_RESULT_SUCCESS;",l): pass
    return [x for x in o if x!=l]
cands=[]
for f in files:
    L=open(R+"/"+f).read().split("\n")
    for i,l in enumerate(L):
        for k in ops(l): cands.append((f,i,l,k,i))
        m=re.match(r"\s*(CCS_(VALIDATE|REFUTE|CHECK)\w*|free|memcpy|HASH_\w+|utarray_\w+|ccs_release_object)\(",l)
        if m:                               # a whole call statement goes away
            j=i; t=l
            while t.count("(")!=t.count(")") and j<i+14 and j+1<len(L): j+=1; t+=L[j]
            if t.rstrip().endswith(";") and t.count("(")==t.count(")") and not l.rstrip().endswith("\\"): cands.append((f,i,l,"\t;",j))
rnd.shuffle(cands)
base=json.load(open("/opt/vp/BASELINE.json")); bl=base.get("passed") or base.get("stable") or base.get("tests") or []
log=open("/tmp/mut/%s.log"%slot,"a")
def out(*a): print(*a,flush=True); print(*a,file=log,flush=True)
out("candidates",len(cands))
PR=["C18","C17","C15","C06","C10","C11","C13","C09","C07","C01","C02","C14","C05","C12","C03","C04","C08"]
done=0
for f,i,l,k,j in cands:
    if done>=N: break
    p=R+"/"+f; src=open(p).read(); L=src.split("\n"); l=" ".join(x.strip() for x in L[i:j+1]); L[i:j+1]=[k]+[""]*(j-i); open(p,"w").write("\n".join(L))
    try:
        r=subprocess.run(["timeout","120","bash","/opt/vp/build.sh"],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode: continue
        if "kokkos" not in f:
            try: subprocess.run(["timeout","60","bash","/opt/vp/test.sh","/tmp/mut/%s.json"%slot],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL); t=json.load(open("/tmp/mut/%s.json"%slot))
            except Exception: continue
            if [x for x in bl if x not in t["passed"]]: continue
        done+=1; caught=None; t0=time.time()
        pr=["C16"] if "kokkos" in f else PR
        for c in pr:
            try: exe=B.build({"C08":"thr","C16":"kok"}.get(c,"sim"))
            except SystemExit as e: caught="BUILD"; break
            ws=[]
            for w in range(NW):
                pre="/tmp/mut/w_%s_%d"%(slot,w)
                ws.append(subprocess.Popen([exe,"work",c,"quick",str(1000000000+w),str(NW),"100000000",str(secs),pre],stdout=open(pre+".out","wb"),stderr=subprocess.DEVNULL))
            bad=None
            while bad is None and any(w.poll() is None for w in ws):
                time.sleep(0.1)
                for w in ws:
                    if w.poll() not in(None,0): bad=w
            for w in ws:
                if w.poll() not in (None,0): bad=w
            for w in ws:
                if w.poll() is None: w.kill()
                w.wait()
            if bad is not None:
                tx=""
                for w in range(NW):
                    z=open("/tmp/mut/w_%s_%d.out"%(slot,w),errors="replace").read()
                    if "VIOLATION" in z: tx=z
                caught=c+" "+tx.replace("\n"," | ")[:140]; break
        out(("caught " if caught else "SURVIVED"),"%s:%d"%(f,i+1),"%.0fs"%(time.time()-t0),"\n    - "+l.strip()+"\n    + "+k.strip()+("\n    "+caught if caught else ""))
    finally: open(p,"w").write(src)
out("end")
