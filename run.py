#!/usr/bin/env python3
"""run.py <ID> [--replay FILE] - build the harness of a property against /repo's current tree and explore it.

Exit 0: the property held on everything explored.  Exit 1 with 'VIOLATION property=<id> replay=<path>': broken.
Exit 2: the check itself could not give an answer.
"""
import sys, os, re, glob, json, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SUSA_REPO", "/repo")
CXX = "g++"
BASE = ["-std=c++17", "-g1", "-Wno-deprecated", "-w", "-ffp-contract=off", "-pthread", f"-I{REPO}/inc", f"-I{VERIF}/mc", f"-I{VERIF}/harness", "-D_GLIBCXX_ASSERTIONS"]
DEFAULT_VARIANTS = [("asan", "-O1 -fsanitize=address -DSUSA_NDEBUG")]

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **k)

def sh(cmd, log):
    r = run(cmd)
    if r.returncode != 0:
        log.append("$ " + " ".join(cmd) + "\n" + r.stderr[-6000:])
    return r.returncode, r.stderr

def main():
    pid = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    srcs = sorted(glob.glob(f"{VERIF}/harness/{pid}_*.cpp"))
    if not srcs:
        print(f"no harness for {pid}"); return 2
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"mc_{pid}_")
    try:
        return go(pid, replay, tier, seed, srcs[0], work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def go(pid, replay, tier, seed, src, work, t0):
    text = open(src).read()
    variants = re.findall(r"^//MC-VARIANT (\S+): (.*)$", text, re.M) or DEFAULT_VARIANTS
    variants = [(n, f) for n, f in variants if not (n.startswith("T_") and tier != "thorough")]
    extra = re.findall(r"^//MC-EXTRA (\S+): (.*)$", text, re.M)       # uninstrumented helper sources
    link = " ".join(re.findall(r"^//MC-LINK (.*)$", text, re.M)).split()
    assume = re.findall(r"^//MC-ASSUME (.*)$", text, re.M)
    parts = int((re.findall(r"^//MC-PARTS (\d+)", text, re.M) or [1])[0])   # a large harness is compiled in pieces
    note = " ".join(re.findall(r"^//MC-BOUND (.*)$", text, re.M))
    lib = [s for s in sorted(glob.glob(f"{REPO}/src/*.cpp")) if os.path.basename(s) != "mlp.cpp"]
    if not lib:
        print("no library sources found"); return 2
    jobs = []
    for vn, vf in variants:
        fl = vf.split()
        for s in lib:
            jobs.append(("lib", vn, [CXX, *BASE, *fl, "-c", s, "-o", f"{work}/{vn}_{os.path.basename(s)}.o"]))
        for k in range(parts):
            jobs.append(("har", vn, [CXX, *BASE, *fl, f'-DMC_VARIANT="{vn}"', f"-DMC_V_{vn}", f"-DMC_PART={k}", f"-DMC_PARTS={parts}", "-c", src, "-o", f"{work}/{vn}_harness{k}.o"]))
        for es, ef in extra:
            jobs.append(("ext", vn, [CXX, *BASE, *ef.split(), "-c", f"{VERIF}/mc/{es}", "-o", f"{work}/{vn}_{os.path.basename(es)}.o"]))
    jobs.sort(key=lambda j: 0 if j[0] == "har" else 1)
    with ThreadPoolExecutor(8) as ex:
        logs = [[] for _ in jobs]
        res = list(ex.map(lambda t: sh(t[0][2], t[1]), zip(jobs, logs)))
    bad_lib = [j for j, r in zip(jobs, res) if r[0] and j[0] != "har"]
    bad_har = [(j, r, l) for j, r, l in zip(jobs, res, logs) if r[0] and j[0] == "har"]
    rp = f"{VERIF}/evidence/replay_{pid}.txt"
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    if bad_lib:
        print("library does not build:"); print("\n".join(l for ls in logs for l in ls)); return 2
    if bad_har:
        real = [x for x in bad_har if re.search(r"\berror:", x[1][1])]
        if not real:
            print("harness build failed without a diagnostic:", bad_har[0][1][1][-3000:]); return 2
        with open(rp, "w") as f:
            f.write(f"property {pid}\nThe library builds, but a program that uses its public interface as documented no longer compiles:\n\n")
            f.write("\n".join(l for x in real for l in x[2]))
        write_evidence(pid, tier, seed, [], t0, assume, note, 1, "harness did not compile against the public interface")
        print("\n".join(re.findall(r"^.*error:.*$", real[0][1][1], re.M)[:8]))
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    results = []
    status = 0
    for i, (vn, vf) in enumerate(variants):
        exe = f"{work}/{vn}.exe"
        objs = sorted(glob.glob(f"{work}/{vn}_*.o"))
        lf = [x for x in vf.split() if x.startswith("-fsanitize") and "thread" not in x]
        lw = [] if "-fsanitize=thread" not in vf else ["-static-libgcc"]
        r = run([CXX, *lf, "-pthread", "-o", exe, *objs, *link])
        if r.returncode:
            und = re.search(r"undefined reference to .susa::", r.stderr)
            if und:
                with open(rp, "w") as f: f.write(f"property {pid}\nA documented function is not provided by the library:\n{r.stderr[-4000:]}")
                write_evidence(pid, tier, seed, [], t0, assume, note, 1, "link against the public interface failed")
                print(f"VIOLATION property={pid} replay={rp}"); return 1
            print("link failed:", r.stderr[-4000:]); return 2
        env = dict(os.environ)
        env.update(MC_PROPERTY=pid, MC_OUT=f"{work}/{vn}.json", MC_REPLAY_OUT=rp, MC_KNOWN=f"{VERIF}/known_findings.txt",
                   VERIF_TIER=tier, VERIF_SEED=str(seed), LC_ALL="C", TZ="UTC",
                   ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:handle_abort=0:quarantine_size_mb=4:malloc_context_size=8:detect_stack_use_after_return=0:max_malloc_fill_size=4096:malloc_fill_byte=191:alloc_dealloc_mismatch=0")
        env.setdefault("MC_CAP", str((620 if tier == "thorough" else 150) / len(variants)))
        if replay:
            if f"variant {vn}" in open(replay).read() or len(variants) == 1:
                return subprocess.run([exe, "--replay", replay], env=env).returncode
            continue
        p = run([exe], env=env)
        sys.stdout.write(p.stdout)
        if os.environ.get("MC_LOUD"): sys.stderr.write(p.stderr)
        try: results.append((vn, vf, json.load(open(f"{work}/{vn}.json"))))
        except Exception as e:
            print("no result file:", e, p.stderr[-3000:]); return 2
        if p.returncode == 1 and "MC-VIOLATION" in p.stdout:
            with open(rp, "a") as f: f.write(f"\nvariant {vn}\nflags {vf}\nrun: python3 {VERIF}/run.py {pid} --replay <this file>\n")
            status = 1; break
        if p.returncode != 0:
            print(p.stderr[-3000:]); return 2
    if replay: return 2
    write_evidence(pid, tier, seed, results, t0, assume, note, status)
    if status:
        print(f"VIOLATION property={pid} replay={rp}")
    return status

def write_evidence(pid, tier, seed, results, t0, assume, note, violations, why=None):
    def s(k): return sum(r[2][k] for r in results)
    cov = dict(states=s("states"), transitions=s("transitions"), traces_validated_against_impl=s("executions"),
               samples=[x for r in results for x in r[2]["samples"]] or [why or "none"],
               executions_abandoned_or_pruned=s("abandoned"), distinct_outcomes=s("distinct_outcomes"),
               exhaustive=bool(results) and not violations and not any(r[2]["capped"] or r[2]["table_full"] for r in results),
               variants={r[0]: dict(flags=r[1], scenarios=r[2]["scenarios"], capped=r[2]["capped"], explore_s=round(r[2]["wall"], 2)) for r in results},
               bounds=note,
               note="every execution runs the real code (no separate model); traces_validated_against_impl counts completed executions, each compared step by step with the reference model in the harness")
    if why: cov["explanation"] = why
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=assume, wall_s=round(time.time() - t0, 2), violations=violations)
    tmp = f"{VERIF}/evidence/{pid}.json.tmp"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, f"{VERIF}/evidence/{pid}.json")

if __name__ == "__main__":
    sys.exit(main())
