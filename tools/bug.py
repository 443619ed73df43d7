#!/usr/bin/env python3
"""Development: confirm a planted bug in a scratch copy bound over /repo (private mount namespace) and try checks on it.
  bug.py ID [--checks C01,C02] [--secs N] [--nocheck]"""
import json, os, subprocess, sys, shutil, time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def ns(wt, cmd, **kw):
    e=dict(os.environ); e.update(kw.pop("env",{}))
    return subprocess.run(["unshare","-Urm","bash","-c","mount --bind %s /repo && cd /repo && %s"%(wt,cmd)],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=e,**kw)
def main():
    i=sys.argv[1]; d=os.path.join(V,"seeded",i); meta=json.load(open(d+"/meta.json")); checks=[meta["property"]]; secs="40"
    if "--checks" in sys.argv: checks=sys.argv[sys.argv.index("--checks")+1].split(",")
    if "--secs" in sys.argv: secs=sys.argv[sys.argv.index("--secs")+1]
    wt="/tmp/bugwt/"+i; shutil.rmtree(wt,ignore_errors=True); os.makedirs("/tmp/bugwt",exist_ok=True)
    subprocess.run(["cp","-a","/repo",wt],check=True); res=[i]
    demo="/tmp/bugwt/demo_"+i; shutil.rmtree(demo,ignore_errors=True); shutil.copytree(d,demo)
    ok=True
    if "--only-check" not in sys.argv:
        r=ns(wt,"bash %s/demo.sh"%demo); res.append("demo-clean=%d"%r.returncode); ok&=r.returncode==0
        if r.returncode: print(r.stdout[-500:])
    r=subprocess.run(["git","-C",wt,"apply",d+"/patch.diff"],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: print(i,"PATCH DOES NOT APPLY",r.stdout); return 1
    if "--only-check" not in sys.argv:
        r=ns(wt,"bash /opt/vp/build.sh"); res.append("build=%d"%r.returncode); ok&=r.returncode==0
        if r.returncode: print(r.stdout[-500:])
        r=ns(wt,"bash /opt/vp/test.sh /tmp/bugwt/%s.json"%i); t=json.load(open("/tmp/bugwt/%s.json"%i)); base=json.load(open("/opt/vp/BASELINE.json"))
        bl=base.get("passed") or base.get("stable") or base.get("tests") or []
        miss=[x for x in bl if x not in t["passed"]]; res.append("tests-missing=%d"%len(miss)); ok&=not miss
        if miss: print(miss[:5])
        r=ns(wt,"bash %s/demo.sh"%demo); res.append("demo-bug=%d"%r.returncode); ok&=r.returncode!=0
        if "-v" in sys.argv: print(r.stdout[-500:])
    if "--nocheck" not in sys.argv:
        for c in checks:
            t0=time.time(); r=ns(wt,"python3 %s/check.py %s quick"%(V,c),env={"VERIF_BUILD":"/tmp/bugwt/b_%s"%i,"VERIF_OUT":"/tmp/bugwt/o_%s"%i,"VERIF_SEED":os.environ.get("VERIF_SEED","1"),"VERIF_QUICK_S":secs})
            res.append("%s:%s(%.0fs)"%(c,{0:"MISSED",1:"caught"}.get(r.returncode,"ERR%d"%r.returncode),time.time()-t0))
            if r.returncode!=1 or "-v" in sys.argv: print(r.stdout[-900:])
            else: print("   ",r.stdout.replace("\n"," | ")[:260])
    print("OK " if ok else "BAD",*res,flush=True)
    for x in (wt,demo,"/tmp/bugwt/b_%s"%i): shutil.rmtree(x,ignore_errors=True)
sys.exit(main())
