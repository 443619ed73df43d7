import os,subprocess,sys,json,shutil
V=os.environ.get("SEEDED","/verif/seeded")
DEMO='''#!/bin/bash
# cwd: the built repository. Exit 0: the property holds on this scenario.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -g -O1 -w %s -I"$R/include" "$D/demo.c" -o "$T/demo" -L"$R/_build/src/.libs" -lcconfigspace -lgsl -lgslcblas -lm -lpthread -Wl,-rpath,"$R/_build/src/.libs" || exit 90
cd "$T" && timeout 60 ./demo
'''
DEMOASAN='''#!/bin/bash
# cwd: the built repository. Exit 0: the property holds on this scenario. The library is compiled again with the address sanitizer.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
V=$(dirname "$(find "$R/_build" -name version.h | head -1)"); C=$(dirname "$(find "$R/_build" -name config.h | head -1)")
ls "$R"/src/*.c | xargs -P 8 -I{} bash -c 'gcc -c -g -O1 -w -DHAVE_CONFIG_H -D_GNU_SOURCE -fsanitize=address -I"$1/include" -I"$2" -I"$3" -I"$1/src" "{}" -o "$4/$(basename "{}").o"' _ "$R" "$V" "$C" "$T" || exit 90
gcc -g -O1 -w %s -fsanitize=address -I"$R/include" "$D/demo.c" "$T"/*.o -o "$T/demo" -lgsl -lgslcblas -lm -lpthread || exit 90
cd "$T" && ASAN_OPTIONS=detect_leaks=%s:allocator_may_return_null=1:exitcode=23 timeout 60 ./demo
'''
def bug(id,prop,needs,breaks,edits,demo,flags="",asan=None):
    d=os.path.join(V,id); wt="/tmp/mkwt"; shutil.rmtree(wt,ignore_errors=True)
    subprocess.run(["git","clone","-q","/repo",wt],check=True)
    for f,a,b in edits:
        p=os.path.join(wt,f); s=open(p).read()
        if s.count(a)!=1: print(id,"EDIT MATCHES",s.count(a),"TIMES in",f); return
        open(p,"w").write(s.replace(a,b))
    diff=subprocess.run(["git","-C",wt,"diff"],stdout=subprocess.PIPE,text=True).stdout
    os.makedirs(d,exist_ok=True); open(d+"/patch.diff","w").write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    open(d+"/demo.c","w").write(demo); shutil.copy(""+os.path.dirname(os.path.abspath(__file__))+"/dh.h",d+"/dh.h")
    open(d+"/demo.sh","w").write(DEMO%flags if asan is None else DEMOASAN%(flags,asan))
    shutil.rmtree(wt,ignore_errors=True); print("made",id)
