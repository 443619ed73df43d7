#!/usr/bin/env python3
"""Builds the simulation harness from /repo's current tree into /verif/build.

The library's own sources are compiled unmodified; every reference they (and
the GSL objects linked with them) make to the allocator, to descriptors, files
and mappings, to exit/abort and to the clock is renamed to sim_* at object
level, so the code under test is the shipped code and the simulator is its
operating system.
"""
import glob, hashlib, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CCS_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
GSL = ["/usr/lib/x86_64-linux-gnu/libgsl.a", "/usr/lib/x86_64-linux-gnu/libgslcblas.a"]
SYMS = """malloc calloc realloc free reallocarray strdup strndup aligned_alloc posix_memalign vasprintf asprintf
exit abort open close read write pread pwrite lseek fstat stat ftruncate posix_fallocate mmap munmap msync fsync fdatasync
unlink rename fcntl poll clock_gettime gettimeofday time""".split()
REN = {s: "sim_" + s for s in SYMS}
ALIAS = {"open64": "sim_open", "fstat64": "sim_fstat", "stat64": "sim_stat", "mmap64": "sim_mmap", "ftruncate64": "sim_ftruncate",
         "lseek64": "sim_lseek", "pread64": "sim_pread", "pwrite64": "sim_pwrite", "__assert_fail": "sim_assert_fail", "_exit": "sim_exit", "_Exit": "sim_exit",
         "__strdup": "sim_strdup", "__open_2": "sim_open", "__open64_2": "sim_open", "fcntl64": "sim_fcntl", "posix_fallocate64": "sim_posix_fallocate", "raise": "sim_raise"}
REN.update({k: ("sim_x_" + k) for k in ALIAS})
WARN = ["-w"]
THREN = {s: "sim_" + s for s in "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_spin_lock pthread_spin_unlock pthread_once".split()}
THREN.update({s: "sim_t_" + s for s in "strlen strcmp strncmp memcmp strcpy strncpy strcat snprintf vsnprintf sprintf qsort".split()})
PATTERN = ["-ftrivial-auto-var-init=pattern"]

VARIANTS = {
    # main harness: AddressSanitizer, simulated heap/IO
    "sim": dict(cc="clang", cxx="clang++", san=["-fsanitize=address", "-fno-sanitize-address-use-after-scope"], opt=["-O1", "-g"], srcs=["seam", "vm", "describe", "model", "ops_core", "ops_tuner", "ops_tree", "ops_obj", "ops_bad", "ops_path", "ops_ckpt", "gen", "modes", "main"]),
    # thread harness: library instrumented with our own scheduler runtime
    "thr": dict(cc="clang", cxx="clang++", lib_extra=["-fsanitize=thread", "-fno-inline", "-fno-builtin"], san=[], opt=["-O1", "-g"], threads=True, defs=["-DSIM_THREADS"], srcs=["seam", "vm", "describe", "model", "ops_core", "ops_tuner", "ops_tree", "ops_obj", "ops_bad", "ops_path", "ops_ckpt", "gen", "modes", "main", "sched"]),
    # Kokkos connector harness
    "kok": dict(cc="clang", cxx="clang++", san=["-fsanitize=address", "-fno-sanitize-address-use-after-scope"], opt=["-O1", "-g"], kokkos=True, cxx_defs=["-Dccs_features_tuner_tell=simk_features_tuner_tell"], srcs=["seam", "kokkos"]),
}

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise SystemExit("BUILD FAILED: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def sha(parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str) and os.path.isfile(p):
            h.update(p.encode()); h.update(open(p, "rb").read())
        else:
            h.update(str(p).encode())
    return h.hexdigest()[:20]

def gen_headers(d):
    os.makedirs(d, exist_ok=True)
    ver = open(os.path.join(REPO, "VERSION")).read().strip() if os.path.exists(os.path.join(REPO, "VERSION")) else "0.0.0.0"
    m = re.findall(r"\d+", ver)[:4]
    m += ["0"] * (4 - len(m))
    out = {}
    sub = os.path.join(REPO, "src", "version.h.subst")
    if os.path.exists(sub):
        t = open(sub).read()
        for k, v in zip(["MAJOR", "MINOR", "PATCH", "REVISION"], m):
            t = t.replace("==VERSION_%s==" % k, v)
        out["version.h"] = t.replace("==VERSION_STRING==", ver)
    else:
        out["version.h"] = "#define CCS_VERSION_STRING \"0\"\n#define CCS_VERSION_MAJOR 0\n#define CCS_VERSION_MINOR 0\n#define CCS_VERSION_PATCH 0\n#define CCS_VERSION_REVISION 0\n"
    out["config.h"] = "".join("#define HAVE_%s 1\n" % x for x in "DLFCN_H INTTYPES_H STDINT_H STDIO_H STDLIB_H STRINGS_H STRING_H SYS_STAT_H SYS_TYPES_H UNISTD_H".split()) + "#define STDC_HEADERS 1\n"
    for n, t in out.items():
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)

def build(name, verbose=False):
    v = VARIANTS[name]
    bd = os.path.join(BUILD, name)
    os.makedirs(bd, exist_ok=True)
    lock = open(os.path.join(bd, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = os.path.join(bd, "gen")
    gen_headers(gen)
    hdrs = sorted(glob.glob(REPO + "/include/**/*.h", recursive=True) + glob.glob(REPO + "/src/*.h")) + [gen + "/version.h", gen + "/config.h"]
    if v.get("kokkos"):
        hdrs += sorted(glob.glob(REPO + "/connectors/kokkos/**/*.h*", recursive=True))
    libsrc = sorted(glob.glob(REPO + "/src/*.c"))
    if v.get("kokkos"):
        libsrc += sorted(glob.glob(REPO + "/connectors/kokkos/*.cpp"))
    hh = sha(hdrs)
    inc = ["-I" + REPO + "/include", "-I" + gen, "-I" + REPO + "/src"]
    if v.get("kokkos"):
        inc += ["-I" + REPO + "/connectors/kokkos/include", "-I" + REPO + "/connectors/kokkos"]
    jobs, lobjs, hobjs = [], [], []
    for s in libsrc:
        cxx = s.endswith(".cpp")
        fl = ["-fno-pie", "-DHAVE_CONFIG_H", "-D_GNU_SOURCE"] + v["opt"] + v["san"] + v.get("lib_extra", []) + PATTERN + WARN + inc + v.get("lib_defs", [])
        if cxx: fl = fl + v.get("cxx_defs", [])
        cmd = [v["cxx"] if cxx else v["cc"]] + (["-std=gnu++17"] if cxx else ["-std=gnu11"]) + fl
        o = os.path.join(bd, "lib_%s_%s.o" % (os.path.basename(s).replace(".", "_"), sha([s, hh] + cmd)))
        lobjs.append(o)
        if not os.path.exists(o): jobs.append(cmd + ["-c", s, "-o", o])
    shdr = sorted(glob.glob(VERIF + "/sim/*.h"))
    pub = sorted(glob.glob(REPO + "/include/**/*.h", recursive=True))
    for s in v["srcs"]:
        f = os.path.join(VERIF, "sim", s + ".cpp")
        cmd = [v["cxx"], "-std=gnu++17", "-fno-pie"] + v["opt"] + v["san"] + v.get("defs", []) + ["-Wall", "-Wno-unused-function", "-Wno-missing-braces"] + inc[:1] + (inc[2:] if v.get("kokkos") else [])
        o = os.path.join(bd, "h_%s_%s.o" % (s, sha([f, sha(shdr + pub)] + cmd)))
        hobjs.append(o)
        if not os.path.exists(o): jobs.append(cmd + ["-c", f, "-o", o])
    def comp(c):
        tmp = c[-1] + ".tmp%d" % os.getpid()
        run(c[:-1] + [tmp]); os.rename(tmp, c[-1])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(comp, jobs))
    exe = os.path.join(bd, "%s_%s" % (name, sha(lobjs + hobjs + [str(sorted(REN.items())), str(sorted(THREN.items())), "2"])))
    if not os.path.exists(exe):
        rel, rel2, symf = exe + ".r.o", exe + ".r2.o", exe + ".syms"
        run(["ld", "-r", "-d", "-o", rel] + lobjs + ["--start-group"] + GSL + ["--end-group"])
        ren = dict(REN)
        if v.get("threads"): ren.update(THREN)
        open(symf, "w").write("".join("%s %s\n" % kv for kv in ren.items()))
        # process-wide library memory in sections of its own, so that the simulator can save, restore and watch it
        own = ["--set-section-flags", ".bss=alloc,load,contents,data", "--rename-section", ".data=ccsdata,alloc,load,contents,data", "--rename-section", ".bss=ccsbss,alloc,load,contents,data"] if v.get("threads") else []
        run(["objcopy", "--redefine-syms=" + symf] + own + [rel, rel2])
        # keep GSL out of weak/duplicate trouble: harness uses the same copy
        tmp = exe + ".tmp%d" % os.getpid()
        run([v["cxx"], "-no-pie"] + v["san"] + v.get("link", []) + ["-Wl,--defsym=sim_x_%s=%s" % kv for kv in ALIAS.items()] + hobjs + [rel2, "-lm", "-lpthread", "-o", tmp])
        os.rename(tmp, exe)
        for f in (rel, rel2, symf): os.remove(f)
        for f in os.listdir(bd):      # keep the build folder small: drop older executables
            p = os.path.join(bd, f)
            if f.startswith(name + "_") and p != exe and "." not in f:
                try: os.remove(p)
                except OSError: pass
    live = set(lobjs + hobjs)
    for f in glob.glob(bd + "/*.o"):
        if f not in live and len(glob.glob(bd + "/*.o")) > 400:
            try: os.remove(f)
            except OSError: pass
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exe

if __name__ == "__main__":
    names = sys.argv[1:] or ["sim"]
    if names == ["setup"]:
        import json
        done = json.load(open(os.path.join(VERIF, "tools", "built.json")))
        names = ["sim"] + (["thr"] if "C08" in done else []) + (["kok"] if "C16" in done else [])
    for n in names:
        print(build(n))
