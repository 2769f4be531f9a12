#!/usr/bin/env python3
"""Decides one property by deterministic simulation: builds the scenario program from /repo's working tree, runs
batches of seeded runs on all cores, gates every violation by replaying it in a fresh process, writes evidence.

  check.py <property>            the check (VERIF_SEED, VERIF_TIER)
  check.py --replay <file>       rebuild and replay a violation with its trace
  check.py --build               build every scenario (setup)
  check.py --determinism <prop>  same seeds twice in separate processes, compare run hashes"""
import sys, os, subprocess, json, time, hashlib, shutil, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(HERE, ".build")
NCPU = os.cpu_count() or 4
try: NCPU = len(os.sched_getaffinity(0))
except Exception: pass
sys.path.insert(0, HERE)
from scenarios import EXES, PROPS

CXX = "g++"
INC = ["-I" + os.path.join(OUT, "inc"), "-I" + os.path.join(HERE, "stub"), "-I" + os.path.join(REPO, "include"), "-I/usr/include/hdf5/serial"]
INSTR = ["-std=c++11", "-O1", "-g1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-fno-pie", "-fno-omit-frame-pointer", "-w"]
SIMF = ["-std=c++17", "-O2", "-g1", "-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-w", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE", "-ftls-model=initial-exec"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5_hl", "-lhdf5", "-lgsl", "-lgslcblas", "-lm", "-lpthread"]

def die(msg):
    print("ERROR: " + msg, file=sys.stderr); sys.exit(2)

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)

def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text: return
    except OSError: pass
    with open(path + ".tmp%d" % os.getpid(), "w") as f: f.write(text)
    os.replace(path + ".tmp%d" % os.getpid(), path)

def headers():
    # what configure generates
    put(os.path.join(OUT, "inc", "resource_paths.h"),
        '#include <cstring>\n#define SOURCE_DATA_PATH "/simfs/"\n#define INSTALL_DATA_PATH "/simfs/"\n'
        'namespace{ inline bool getInstallBit(){ return false; } }\n')
    v = "100000"
    try:
        c = open(os.path.join(REPO, "configure")).read()
        m = re.search(r'^VERSION_NUM=([0-9]+)', c, re.M); v = str(int(m.group(1))) if m else v
        m2 = re.search(r'^VERSION="?([0-9.]+)', c, re.M); vs = m2.group(1) if m2 else "1.0.0"
    except OSError: vs = "1.0.0"
    put(os.path.join(OUT, "inc", "nuSQuIDS", "version.h"), '#ifndef NUSQUIDS_VERSION_HPP\n#define NUSQUIDS_VERSION_HPP\n#define NUSQUIDS_VERSION %s\n#define NUSQUIDS_VERSION_STR "%s"\n#endif\n' % (v, vs))

def compile_one(src, flags):
    """object file cached under the hash of the preprocessed source (so always that of the current tree)"""
    r = run([CXX] + flags + INC + ["-E", src])
    if r.returncode: return None, r.stderr
    h = hashlib.sha256((" ".join(flags) + "\0" + r.stdout).encode()).hexdigest()[:24]
    o = os.path.join(OUT, "obj", os.path.basename(src) + "." + h + ".o")
    if not os.path.exists(o):
        os.makedirs(os.path.dirname(o), exist_ok=True); t = o + ".%d.tmp" % os.getpid()
        r = run([CXX] + flags + INC + ["-c", src, "-o", t])
        if r.returncode: return None, r.stderr
        os.replace(t, o)
    return o, ""

def build_sim():
    srcs = sorted(os.path.join(HERE, "sim", f) for f in os.listdir(os.path.join(HERE, "sim")))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs) + " ".join(SIMF).encode()).hexdigest()[:24]
    d = os.path.join(OUT, "sim-" + h); so = os.path.join(d, "libsim.so")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True); t = so + ".%d.tmp" % os.getpid()
        r = run([CXX] + SIMF + ["-shared", os.path.join(HERE, "sim", "libsim.cpp"), "-Wl,--version-script=" + os.path.join(HERE, "sim", "libsim.map"), "-Wl,-soname,libsim.so", "-o", t, "-ldl", "-lpthread"])
        if r.returncode: die("simulator does not build:\n" + r.stderr[:1200])
        os.replace(t, so)
    return d

def build(exe):
    headers(); e = EXES[exe]
    srcs = [os.path.join(HERE, "scen", s) for s in e["scen"]] + [os.path.join(REPO, s) for s in e["repo"]]
    with ThreadPoolExecutor(NCPU) as p:
        sim = p.submit(build_sim); objs = list(p.map(lambda s: compile_one(s, INSTR + e.get("flags", [])), srcs)); simd = sim.result()
    for (o, err), s in zip(objs, srcs):
        if o is None: die("%s does not compile:\n%s" % (s, err[:1200]))
    key = hashlib.sha256((" ".join(o for o, _ in objs) + simd).encode()).hexdigest()[:24]
    out = os.path.join(OUT, "bin", exe + "-" + key)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True); t = out + ".%d.tmp" % os.getpid()
        r = run([CXX, "-no-pie"] + [o for o, _ in objs] + ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-L" + simd, "-Wl,-rpath," + simd, "-Wl,--no-as-needed", "-lsim"] + LIBS + ["-o", t])
        if r.returncode: die("%s does not link:\n%s" % (exe, r.stderr[:1200]))
        os.replace(t, out)
    return out

def env():
    e = dict(os.environ); e.pop("LD_PRELOAD", None); e.pop("NUSQUIDS_DATA_PATH", None); e["HDF5_USE_FILE_LOCKING"] = "TRUE"; e["LC_ALL"] = "C"; e["MALLOC_ARENA_MAX"] = "2"
    return e

def known_entries(prop):
    r = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3)))
    except OSError: pass
    return r

def addr2line(exe, msg):
    pcs = sorted(set(re.findall(r"pc=(0x[0-9a-f]+)", msg)))
    if not pcs: return []
    r = run(["addr2line", "-C", "-f", "-p", "-e", exe] + pcs)
    return ["%s: %s" % (a, b) for a, b in zip(pcs, r.stdout.splitlines())]

def check(prop):
    t0 = time.time(); P = PROPS[prop]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = os.path.join(HERE, "evidence"); os.makedirs(ev, exist_ok=True)
    work = os.path.join(OUT, "run-%s-%d" % (prop, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    exe = build(P["exe"]); tb = time.time() - t0
    nb = NCPU; runs = P["quick"] if tier == "quick" else P.get("thorough", P["quick"] * 40)
    tlimit = float(os.environ.get("VERIF_TIME", P.get("quick_s", 150) if tier == "quick" else P.get("thorough_s", 2400)))
    per = (runs + nb - 1) // nb; fper = P.get("fper", 3)
    procs = []
    for b in range(nb):
        cmd = [exe, "run", "--prop", prop, "--vseed", str(seed), "--first", str(b), "--stride", str(nb), "--runs", str(per), "--time", str(tlimit), "--known", os.path.join(HERE, "known_findings.txt"), "--out", os.path.join(work, "b%d" % b), "--cpu", str(b), "--fper", str(fper)]
        procs.append(subprocess.Popen(cmd, env=env(), stdout=open(os.path.join(work, "b%d.out" % b), "w"), stderr=open(os.path.join(work, "b%d.err" % b), "w"), cwd=work))
    rcs = [p.wait() for p in procs]
    for b, rc in enumerate(rcs):
        if rc not in (0, 1): die("batch %d ended with %d:\n%s" % (b, rc, open(os.path.join(work, "b%d.err" % b)).read()[:3000]))
    tot = {}; hashes = set(); samples = []; viol = []
    for b in range(nb):
        d = json.load(open(os.path.join(work, "b%d.json" % b)))
        hashes.update(d.pop("hashes")); samples += [s for s in d.pop("samples") if s not in samples][:3]
        for k, v in d.items():
            if isinstance(v, dict):
                t = tot.setdefault(k, {})
                for kk, vv in v.items(): t[kk] = vv if isinstance(vv, str) else t.get(kk, 0) + vv
            elif k in ("wall", "maxsteps"): tot[k] = max(tot.get(k, 0), v)
            else: tot[k] = tot.get(k, 0) + v
        for l in open(os.path.join(work, "b%d.viol" % b)): viol.append(json.loads(l))
    # the violation of the lowest run index is reported: the answer does not depend on which batch was fastest
    viol.sort(key=lambda v: (v["index"], v["pass"])); reported = []
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    classes = set()
    for v in viol:
        if v["class"] in classes: continue
        classes.add(v["class"]); dst = os.path.join(rdir, "%s-%s.replay" % (prop, v["class"])); shutil.copy(v["replay"], dst)
        r = run([exe, "replay", dst, "--known", os.path.join(HERE, "known_findings.txt")], env=env(), cwd=work) # fresh process
        if r.returncode != 0: die("violation does not replay in a fresh process: %s\n%s%s" % (json.dumps(v), r.stdout, r.stderr))
        v["replay"] = dst; v["where"] = addr2line(exe, v["message"]); reported.append(v)
    cov = {"evaluations": tot["runs"], "distinct_nontrivial": len(hashes),
           "rule": "one evaluation is one simulated run in its own process, wholly decided by hash(VERIF_SEED, property, run index): workload choices, schedule, faults, memory contents. "
                   "Faulted runs repeat a fault-free run's workload and schedule with 1-3 faults placed at sites that run passed. " + P["rule"] +
                   " Distinct: different hash over all choices, schedule switches, fault firings, disk operations and recorded history.",
           "samples": samples[:8] or ["(none described)"], "seeds": tot["seeds"], "fault_runs": tot["fault_runs"], "nontrivial_runs": tot["nontrivial"],
           "runs_per_hour": int(tot["runs"] / max(tot["wall"], 1e-3) * 3600), "seeds_per_hour": int(tot["seeds"] / max(tot["wall"], 1e-3) * 3600),
           "simulated_seconds": tot["sim_ns"] / 1e9, "scheduling_steps": tot["steps"], "longest_run_steps": tot["maxsteps"], "thread_switches": tot["switches"], "threads_created": tot["threads"],
           "distinct_schedules": tot["distinct_schedules"], "allocations": tot["allocs"], "disk_operations": tot["disk_ops"], "short_or_interrupted_transfers": tot["short_or_interrupted_transfers"],
           "fault_places_tried": tot["fault_places"], "fault_sites_passed": tot["fault_sites"], "faults_injected": tot["faults_fired"], "probes": tot["probes"], "known_findings_hit": tot["known"],
           "real_components": EXES[P["exe"]]["real"], "stub_components": EXES[P["exe"]]["stub"], "build_s": round(tb, 1), "cores": nb}
    for pn in P.get("expect", []):
        if not tot["probes"].get(pn) and not reported: cov.setdefault("probes_never_hit", []).append(pn)
    known = known_entries(prop); kn = {i: t for i, t in known}
    for k in sorted(kn): print("KNOWN-FINDING: property=%s %s (%s; %s)" % (prop, kn[k], k, "hit in this run" if k in tot["known"] else "not hit in this run"))
    E = {"property": prop, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov,
         "assumptions": P.get("assumptions", []) + ["search is sampling: a clean batch is evidence, not proof", "library code outside this repository (libstdc++, GSL, HDF5) runs for real but is not instrumented: preemption inside it only at lock, memory and disk calls"],
         "wall_s": round(time.time() - t0, 2), "violations": reported}
    with open(os.path.join(ev, prop + ".json"), "w") as f: json.dump(E, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s: %d runs (%d with planned faults, %d distinct non-trivial) from %d seeds, %d scheduling steps, %.0f s (build %.0f s)" % (prop, tot["runs"], tot["fault_runs"], len(hashes), tot["seeds"], tot["steps"], time.time() - t0, tb))
    if reported:
        for v in reported: print("  class %s: %s" % (v["class"], v["message"])); [print("    " + w) for w in v["where"]]; print("\n".join("    | " + l for l in v["description"].splitlines()[:40]))
        v = reported[0]; print("VIOLATION property=%s replay=%s" % (prop, v["replay"])); return 1
    return 0

def replay(path):
    prop = re.search(r"^property (\S+)", open(path).read(), re.M).group(1); exe = build(PROPS[prop]["exe"])
    r = subprocess.run([exe, "replay", os.path.abspath(path), "--trace", "--known", os.path.join(HERE, "known_findings.txt")], env=env(), stdout=subprocess.PIPE, universal_newlines=True)
    print(r.stdout); [print("  " + w) for w in addr2line(exe, r.stdout)]; return r.returncode

def determinism(prop, runs=400):
    exe = build(PROPS[prop]["exe"]); outs = []
    def one(a):
        cpu, seed = a
        return run([exe, "run", "--prop", prop, "--vseed", str(seed), "--runs", str(runs), "--cpu", str(cpu), "--hashes", "--known", os.path.join(HERE, "known_findings.txt")], env=env()).stdout
    bad = 0
    for seed in range(1, 9):
        with ThreadPoolExecutor(8) as p: outs = list(p.map(one, [(c, seed) for c in range(4)]))
        if len(set(outs)) != 1: bad += 1
    print("%s: 8 seeds x 4 processes x %d seeds of runs: %s" % (prop, runs, "all run hashes identical" if not bad else "%d seeds DIFFER" % bad)); return 1 if bad else 0

if __name__ == "__main__":
    a = sys.argv[1:]
    if not a: print(__doc__); sys.exit(2)
    if a[0] == "--replay": sys.exit(replay(a[1]))
    if a[0] == "--build":
        for e in (a[1:] or EXES): print(build(e))
        sys.exit(0)
    if a[0] == "--determinism": sys.exit(max(determinism(p) for p in (a[1:] or PROPS)))
    sys.exit(check(a[0]))
