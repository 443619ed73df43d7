#!/usr/bin/env python3
"""Driver of the simulation checks.

  check.py PROP [quick|thorough]   seeded search; exit 0 held, 1 violation, 2 the check itself could not decide
  check.py PROP replay FILE        exact re-execution of a replay file
  check.py PROP triage SECONDS     (development) list distinct violations
  check.py all quick               (development) every registered check in turn
"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B

PROPS = ["C%02d" % i for i in range(1, 19)]
VARIANT = {"C08": "thr", "C16": "kok"}
QUICK = float(os.environ.get("VERIF_QUICK_S", "40"))
THOROUGH = float(os.environ.get("VERIF_THOROUGH_S", "600"))
NW = int(os.environ.get("VERIF_WORKERS", "8"))
DET = {"quick": 24, "thorough": 200}
INFO = json.load(open(os.path.join(VERIF, "checks.json")))
OUT = os.environ.get("VERIF_OUT", VERIF)      # development: keep parallel trials apart
EVID = os.path.join(OUT, "evidence")
REPL = os.path.join(OUT, "replays")

def env():
    e = dict(os.environ); e.pop("ASAN_OPTIONS", None); e.pop("LD_PRELOAD", None); e["LC_ALL"] = "C"
    return e

def result_of(text):
    """(class, message) of the violation a run printed, or None"""
    m = re.search(r"^RESULT VIOLATION (\S+)\n(.*?)(?=^CASE |^HASH |^==\d+==|\Z)", text, re.S | re.M)
    return (m.group(1), m.group(2).strip()) if m else None

def execute(exe, path, limit=90):
    try:
        r = subprocess.run([exe, "exec", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(), timeout=limit)
    except subprocess.TimeoutExpired:
        return ("hang", "no answer within %d s" % limit), None
    out = r.stdout.decode("utf-8", "replace")
    v = result_of(out)
    if v is None and r.returncode not in (0, 3):
        v = ("crash", "process ended with status %d" % r.returncode)
    h = re.search(r"^HASH (\w+)", out, re.M)
    return v, (h.group(1) if h else None)

class Worker:
    def __init__(self, exe, prop, tier, seed0, stride, count, secs, prefix, hashes=False):
        self.prefix, self.prop, self.seed0, self.stride = prefix, prop, seed0, stride
        self.out = open(prefix + ".out", "wb")
        cmd = [exe, "work", prop, tier, str(seed0), str(stride), str(count), "%.2f" % secs, prefix] + (["hashes"] if hashes else [])
        self.t0 = time.time()
        self.p = subprocess.Popen(cmd, stdout=self.out, stderr=subprocess.DEVNULL, env=env())
    def done(self):
        return self.p.poll() is not None
    def text(self):
        self.out.close()
        return open(self.prefix + ".out", "rb").read().decode("utf-8", "replace")
    def stats(self):
        try: return json.load(open(self.prefix + ".json"))
        except (OSError, ValueError): return None

# ---- shrinking ---------------------------------------------------------------
def parse_case(text):
    head, body = [], []
    for l in text.splitlines():
        if l.startswith("case ") or l.startswith("cfg "): head.append(l)
        elif l.strip() and not l.startswith("#"): body.append(l)
    return head, body

def shrink(exe, path, cls, budget):
    head, body = parse_case(open(path).read())
    t0 = time.time(); tmp = path + ".try"; tries = 0
    def fails(b):
        nonlocal tries
        tries += 1
        open(tmp, "w").write("\n".join(head + b) + "\n")
        v, _ = execute(exe, tmp, 70)
        return v is not None and v[0] == cls
    if not fails(body): return False
    n = 2
    while len(body) > 1 and time.time() - t0 < budget:
        size = max(1, len(body) // n); reduced = False; i = 0
        while i < len(body) and time.time() - t0 < budget:
            cand = body[:i] + body[i + size:]
            if cand and balanced(cand) and fails(cand): body = cand; reduced = True
            else: i += size
        if size == 1 and not reduced: break
        n = 2 if reduced and size == 1 else min(len(body), n * 2)
    # drop faults and I/O decisions that are not needed
    for i in range(len(body)):
        if time.time() - t0 > budget: break
        parts = body[i].split(" | ")
        if len(parts) > 1 and not body[i].startswith("sched"):
            k = 1
            while k < len(parts) and time.time() - t0 < budget:
                q = parts[:k] + parts[k + 1:]
                cand = body[:i] + [" | ".join(q)] + body[i + 1:]
                if fails(cand): parts = q; body = cand
                else: k += 1
    # shorten an explicit schedule
    for i in range(len(body)):
        if body[i].strip().startswith("sched"):
            ind = body[i][:len(body[i]) - len(body[i].lstrip())]
            s = body[i].split()[1:]; size = max(1, len(s) // 2)
            while size >= 1 and time.time() - t0 < budget:
                k = 0
                while k < len(s) and time.time() - t0 < budget:
                    c = s[:k] + s[k + size:]; cand = body[:i] + [ind + "sched " + " ".join(c)] + body[i + 1:]
                    if c and fails(cand): s = c; body = cand
                    else: k += size
                if size == 1: break
                size //= 2
    open(path, "w").write("\n".join(head + body) + "\n")
    try: os.remove(tmp)
    except OSError: pass
    return True

def balanced(b):
    d = 0
    for l in b:
        w = l.strip().split(" ")[0]
        if w == "sub": d += 1
        elif w == "end":
            d -= 1
            if d < 0: return False
    return d == 0

# ---- known findings ------------------------------------------------------------
def known(prop):
    res = []
    try: lines = open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")).read().splitlines()
    except OSError: return res
    for l in lines:
        m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)$", l)
        if m and m.group(1) == prop: res.append((re.compile(m.group(2), re.S), m.group(3)))
    return res

def is_known(kn, v):
    for rx, what in kn:
        if rx.search(v[0] + ": " + v[1]): return what
    return None

# ---- search ----------------------------------------------------------------------
def gate(exe, case, cls):
    """a violation counts only when two fresh processes replay it identically"""
    a, ha = execute(exe, case); b, hb = execute(exe, case)
    return a is not None and b is not None and a[0] == b[0] == cls and ha == hb

def search(exe, prop, tier, secs, base, tmp, on_violation, det):
    stats, states, hashes, merged = [], set(), {}, None
    live = []; end = time.time() + secs; nextseed = {}
    for w in range(NW):
        live.append((w, Worker(exe, prop, tier, base + w, NW, 10 ** 9, secs, "%s/w%d_0" % (tmp, w), True)))
    gen = 0
    while live:
        time.sleep(0.05)
        for item in list(live):
            w, k = item
            if not k.done():
                if time.time() - k.t0 > secs + 150: k.p.kill(); 
                continue
            live.remove(item)
            text = k.text(); st = k.stats(); last = None
            for m in re.finditer(r"^HASH (\d+) (\w+)", text, re.M): hashes[int(m.group(1))] = m.group(2); last = int(m.group(1))
            if st: stats.append(st)
            try:
                d = open(k.prefix + ".states", "rb").read(); states.update(struct.unpack("<%dQ" % (len(d) // 8), d))
            except OSError: pass
            v = result_of(text); rc = k.p.returncode
            if rc == 98: raise SystemExit("the simulator could not run: " + text[-500:])
            if v or rc not in (0, 3):
                case = k.prefix + ".case"
                if not v: v = ("crash", "process ended with status %s" % rc)
                cont = on_violation(v, case)
                if not cont:
                    for _, o in live: o.p.kill(); o.p.wait()
                    return stats, states, hashes, len(live)
                left = end - time.time()
                if left > 0.5:
                    # continue after the seed that failed
                    seed = None
                    try: seed = int(open(case).readline().split()[3])
                    except (OSError, IndexError, ValueError): pass
                    if seed is not None:
                        gen += 1
                        live.append((w, Worker(exe, prop, tier, seed + NW, NW, 10 ** 9, left, "%s/w%d_%d" % (tmp, w, gen), True)))
    return stats, states, hashes, 0

def merge(stats):
    tot = {"runs": 0, "ops": 0, "failed_calls": 0, "faults_in_calls": 0, "ref_bad": 0}; faults, mix, foreign, samples, extra = {}, {}, {}, [], {}
    for s in stats:
        for k in tot: tot[k] += s.get(k, 0)
        for k, v in s.get("faults", {}).items():
            if k != "_" and v: faults[k] = faults.get(k, 0) + v
        for k, v in s.get("opmix", {}).items(): mix[k] = mix.get(k, 0) + v
        for k, v in s.get("extra", {}).items(): extra[k] = extra.get(k, 0) + v
        for k, v in s.get("foreign", {}).items():
            f = foreign.setdefault(k, [0, v[1]]); f[0] += v[0]
        samples += s.get("samples", [])
    return tot, faults, mix, foreign, samples, extra

def triage(prop, secs):
    exe = B.build(VARIANT.get(prop, "sim")); tmp = tempfile.mkdtemp(prefix="ccs_tri_"); found = {}; keep = os.path.join("/tmp/tri", prop)
    shutil.rmtree(keep, ignore_errors=True); os.makedirs(keep)
    kn = known(prop)
    def onv(v, case):
        if is_known(kn, v): return True
        key = v[0] + " " + re.sub(r"\d+", "#", v[1])[:160]
        n, c, m = found.get(key, (0, None, None))
        if c is None or os.path.getsize(case) < os.path.getsize(c):
            c2 = "%s/%d.case" % (keep, len(found) if c is None else int(re.search(r"(\d+)\.case", c).group(1)))
            try: shutil.copy(case, c2)
            except OSError: c2 = None
            c, m = c2, v
        found[key] = (n + 1, c, m); return True
    base = int(os.environ.get("VERIF_SEED", "1")) * 1000000007
    stats, states, hashes, _ = search(exe, prop, os.environ.get("VERIF_TIER", "quick"), secs, base, tmp, onv, 0)
    tot, faults, mix, foreign, samples, extra = merge(stats)
    print(prop, tot, "states", len(states), faults, extra)
    for k, v in sorted(foreign.items()): print("  FOREIGN", k, v[0], v[1][:int(os.environ.get("FLEN", "300"))])
    for k, (n, c, m) in sorted(found.items(), key=lambda x: -x[1][0])[:14]: print("  %5d %s %s\n      %s" % (n, c, m[0], m[1][:int(os.environ.get("MLEN", "500"))].replace("\n", "\n      ")))
    shutil.rmtree(tmp, ignore_errors=True)

def check(prop, tier):
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or "1"); base = seed * 1000000007
    exe = B.build(VARIANT.get(prop, "sim")); bt = time.time() - t0
    os.makedirs(EVID, exist_ok=True); os.makedirs(REPL, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="ccs_chk_"); kn = known(prop); seen = {}; bad = []; unsure = []
    def onv(v, case):
        what = is_known(kn, v)
        if what:
            if what not in seen: seen[what] = 0
            seen[what] += 1
            return True
        if not os.path.exists(case) or not gate(exe, case, v[0]):
            unsure.append((v, case)); return len(unsure) < 3
        bad.append((v, case)); return False
    try:
        secs = QUICK if tier == "quick" else THOROUGH
        stats, states, hashes, _ = search(exe, prop, tier, secs, base, tmp, onv, DET[tier])
        # one seed is one execution: a sample of the seeds is run again in fresh processes
        differ = []; again = 0
        if not bad:
            n = DET[tier]; ws = [Worker(exe, prop, tier, base + w, NW, n // NW + 1, 120, "%s/d%d" % (tmp, w), True) for w in range(NW)]
            for k in ws:
                k.p.wait(); t = k.text()
                for m in re.finditer(r"^HASH (\d+) (\w+)", t, re.M):
                    s = int(m.group(1))
                    if s in hashes:
                        again += 1
                        if hashes[s] != m.group(2): differ.append(s)
        tot, faults, mix, foreign, samples, extra = merge(stats); wall = time.time() - t0; lines = []; rc = 0
        # damaged generator states inside accepted images: listed finding, or a violation like any other
        for cls, f in foreign.items():
            if cls != "rngstate" or prop != "C04": continue
            what = is_known(kn, (cls, f[1]))
            if what: seen[what] = f[0]
            elif not bad:
                m = re.match(r"seed (\d+): ", f[1]); case = "%s/rngstate.case" % tmp
                out = subprocess.run([exe, "gen", prop, tier, m.group(1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env()).stdout
                open(case, "wb").write(out); bad.append(((cls, f[1]), case))
        for what in seen: print("KNOWN-FINDING: property=%s %s" % (prop, what))
        if bad:
            v, case = bad[0]; s = re.search(r"case \S+ \S+ (\d+)", open(case).read()); rp = os.path.join(REPL, "%s-%s.case" % (prop, s.group(1) if s else "x"))
            shutil.copy(case, rp); full = open(rp).read()
            ok = v[0] != "rngstate" and shrink(exe, rp, v[0], 60 if tier == "quick" else 240) and gate(exe, rp, v[0])
            if not ok: open(rp, "w").write(full)
            v2, h = execute(exe, rp); v = v2 or v
            open(rp, "a").write("# %s: %s\n" % (v[0], v[1].replace("\n", "\n# ")))
            print("seed %s, %d operations after shrinking\n%s: %s" % (s.group(1) if s else "?", sum(1 for l in open(rp) if l.strip().startswith("op ")), v[0], v[1][:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, rp)); rc = 1
        elif differ or unsure:
            print("the simulation did not repeat itself: seeds %s, unconfirmed %s" % (differ[:5], [u[0] for u in unsure][:3])); rc = 2
        if not bad and not rc and tot["runs"] == 0:
            print("nothing was simulated"); rc = 2
        info = INFO["checks"][prop]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": info["level"],
              "coverage": {"evaluations": tot["runs"], "distinct_nontrivial": len(states), "rule": info["rule"], "samples": samples[:6],
                           "simulated_runs": tot["runs"], "runs_per_hour": int(tot["runs"] * 3600 / max(wall - bt, 0.1)), "calls_simulated": tot["ops"], "failed_calls": tot["failed_calls"],
                           "simulated_time": info.get("time", "the library reads no clock; simulated time is counted in calls (calls_simulated)"),
                           "faults_injected": faults, "faults_hit_in_calls": tot["faults_in_calls"], "distinct_states_measure": info["measure"], "operation_mix": mix, "extra": extra,
                           "determinism_reruns": again, "determinism_mismatches": len(differ), "reference_runs_unusable": tot["ref_bad"],
                           "other_properties_noticed": {k: v[0] for k, v in foreign.items()}, "real_code": info["real"], "stubbed": info["stub"], "build_s": round(bt, 1), "workers": NW},
              "assumptions": INFO["assumptions"] + info.get("assumptions", []), "wall_s": round(wall, 1),
              "violations": len(bad)}
        if bad: ev["coverage"]["violation"] = {"class": v[0], "message": v[1][:2000], "replay": rp}
        json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
        print("%s %s: %d simulated runs, %d calls, %d distinct states, faults %s, %d seeds repeated identically, %.0f s" % (prop, tier, tot["runs"], tot["ops"], len(states), faults, again - len(differ), wall))
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    prop = sys.argv[1]; mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if mode == "replay":
        v, h = execute(B.build(VARIANT.get(prop, "sim")), sys.argv[3])
        print("HASH", h); print("VIOLATION property=%s replay=%s\n%s: %s" % (prop, sys.argv[3], v[0], v[1]) if v else "held")
        return 1 if v else 0
    if mode == "triage": triage(prop, float(sys.argv[3])); return 0
    if prop == "all":
        rc = 0
        for p in [p for p in PROPS if p in INFO["checks"]]: rc |= check(p, mode); sys.stdout.flush()
        return rc
    return check(prop, mode)
if __name__ == "__main__":
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException as e:
        import traceback; traceback.print_exc(); sys.exit(2)
