#!/usr/bin/env python3
"""Driver: builds a property's monitors from /repo's working tree, runs them, writes evidence.

  run.py <PID> [quick|thorough]     run a check
  run.py replay <file>              re-run one recorded violation verbosely
  run.py build [PID...]             build only
"""
import sys, os, re, json, glob, time, hashlib, shutil, struct, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from config import PROPS
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
SHARDS = 8

FLAVORS = {
    "plain": ("g++", "-O1 -D_GLIBCXX_ASSERTIONS", ""),
    "san": ("clang++", "-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address,undefined "
                       "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined"),
    "rel": ("clang++", "-O1 -DNDEBUG -gline-tables-only -fno-omit-frame-pointer -fsanitize=address,undefined "
                       "-fno-sanitize-recover=all", "-fsanitize=address,undefined"),
    "tsan": ("clang++", "-O1 -gline-tables-only -fsanitize=thread", "-fsanitize=thread"),
}
COMMON = ("-std=c++17 -w -pthread -DDRAMPOWER_TESTING -DDRAMPOWER_VERSION_STRING='\"6.0.0\"' "
          f"-I{REPO}/src/DRAMPower -I{REPO}/src/cli/lib -I{REPO}/src/cli/main "
          f"-I{HERE}/stub -I{HERE}/harness")
SANENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1",
}

MEMCHECK = ["valgrind", "--tool=memcheck", "--quiet", "--error-exitcode=99", "--exit-on-first-error=yes",
            "--undef-value-errors=yes", "--leak-check=no", "--show-mismatched-frees=no", "--num-callers=24"]

def lib_sources(kind):
    base = f"{REPO}/src/DRAMPower"
    allc = sorted(p for p in glob.glob(base + "/**/*.cpp", recursive=True))
    if kind == "none": return []
    if kind == "cmd":
        return [p for p in allc if "/command/" in p or p.endswith(("LPDDR6Command.cpp", "LPDDR6Pattern.cpp"))]
    if kind == "iface": return [p for p in allc if p.endswith("/dram/Interface.cpp")]
    if kind == "ext": return [p for p in allc if p.endswith(("/util/extensions.cpp", "/command/Command.cpp"))]
    if kind == "full": return allc
    if kind == "val": return [f"{REPO}/src/cli/main/validators.cpp"]
    if kind == "cli":
        return (allc + sorted(glob.glob(f"{REPO}/src/cli/lib/**/*.cpp", recursive=True))
                + [p for p in sorted(glob.glob(f"{REPO}/src/cli/main/*.cpp")) if not p.endswith("/main.cpp")]
                + [f"{HERE}/harness/common/cli_main.cpp"])
    raise SystemExit(f"bad lib {kind}")

def gen_ninja(jobs):
    os.makedirs(BUILD, exist_ok=True)
    L = []
    for f, (cc, cf, lf) in FLAVORS.items():
        # Objects live in per-flavour directories; dependency files make rebuilds follow /repo's working tree.
        L.append(f"rule cc_{f}\n  command = {cc} {COMMON} {cf} $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = {f} $in\n")
        L.append(f"rule ln_{f}\n  command = {cc} $in {lf} -pthread $libs -o $out\n  description = link $out\n")
    done = set(); outs = []
    def obj(src, f):
        tag = src.replace(REPO, "repo").replace(HERE, "verif").strip("/").replace("/", "_").replace(".cpp", "")
        o = f"{BUILD}/{f}/{tag}.o"
        if o not in done:
            done.add(o); L.append(f"build {o}: cc_{f} {src}\n")
        return o
    for j in jobs:
        f = j["flavor"]
        objs = [obj(f"{HERE}/harness/{j['src']}", f), obj(f"{HERE}/harness/common/main.cpp", f)]
        objs += [obj(s, f) for s in lib_sources(j["lib"])]
        out = f"{BUILD}/{f}/bin/" + os.path.basename(j["src"])[:-4]
        libs = "-lspdlog -lfmt" if j["lib"] == "cli" else ""
        if out not in done:
            done.add(out)
            L.append(f"build {out}: ln_{f} {' '.join(objs)}\n  libs = {libs}\n"); outs.append(out)
        j["bin"] = out
    key = hashlib.sha1("".join(sorted(outs)).encode()).hexdigest()[:10]
    path = f"{BUILD}/b-{key}.ninja"
    text = f"builddir = {BUILD}/nj-{key}\n" + "\n".join(L)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    return path, outs

def build(jobs):
    def attempt():
        path, outs = gen_ninja(jobs)
        return subprocess.run(["ninja", "-j", str(os.cpu_count() or 8), "-f", path] + outs, cwd=BUILD,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r = attempt()
    if r.returncode != 0 and any(j["lib"] not in ("full", "cli") for j in jobs):
        # a unit may have come to depend on other translation units: retry against the whole library
        for j in jobs: j["lib"] = "cli" if j["lib"] == "val" else "full" if j["lib"] != "cli" else "cli"
        r = attempt()
    if r.returncode != 0:
        print(r.stdout[-6000:]); print("BUILD-FAILED: the harness could not be built against /repo's working tree")
        sys.exit(2)

def crash_key(err, rc):
    """A stable identification of where the code under test died: kind + first frame inside DRAMPower."""
    kind, where = f"exit{rc}", ""
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)", err)
    ub = re.search(r"([\w./+-]+\.(?:h|hpp|cpp)):(\d+):\d+: runtime error: (.+)", err)
    asr = re.search(r"([\w./+-]+):(\d+): (.+): Assertion [`'](.+)' failed", err)
    if "VH-HANG" in err: kind = "hang"
    elif asr:
        fn = asr.group(3)
        kind = "assert"; where = os.path.basename(asr.group(1)) + ":" + asr.group(4)[:80]
    elif ub:
        kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", ub.group(3))[:70]; where = os.path.basename(ub.group(1))
    elif rc == 99:
        vg = [re.sub(r"==\d+== ?", "", l) for l in err.splitlines() if re.match(r"==\d+==", l)]
        kind = "memcheck:" + re.sub(r"0x[0-9A-Fa-f]+|\d+", "N", next((l for l in vg if l.strip()), "error"))[:70]
        fr = [re.search(r"(?:at|by) 0x[0-9A-F]+: (.+?) \((.+?)\)$", l) for l in vg]
        fr = [f.group(1) for f in fr if f and "DRAMPower::" in f.group(1)]
        where = re.sub(r"\(.*", "", fr[0])[:90] if fr else ""
    elif m: kind = m.group(1) + ":" + m.group(2)
    if not where:
        for fr in re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+)", err):
            if REPO in fr[1] or "/src/DRAMPower" in fr[1] or "/src/cli" in fr[1]:
                where = re.sub(r"\(.*", "", fr[0])[:90] + "@" + os.path.basename(fr[1].split(":")[0]); break
    return f"crash:{kind}:{where}" if where else f"crash:{kind}"

def run_shard(j, seed, shard, total, tier, tmp):
    """Runs cases shard, shard+8, ...; a crash is attributed to its case and the run resumes after it."""
    res = dict(cases=0, evals=0, counters={}, samples=[], fails=[], fps=set(), errors=[])
    env = dict(os.environ); env.update(SANENV); env["VH_REPO"] = REPO
    pending = [(shard, total)]; crashes = 0; n = 0; retries = 1
    while pending:
        lo, hi = pending.pop(0)
        if lo >= hi: continue
        n += 1
        out = f"{tmp}/{j['name']}.{shard}.{n}.json"; prog = out + ".prog"; scratch = f"{tmp}/s{shard}"
        os.makedirs(scratch, exist_ok=True)
        cmd = [j["bin"], "--seed", str(seed), "--from", str(lo), "--to", str(hi), "--step", str(SHARDS),
               "--out", out, "--progress", prog, "--scratch", scratch, "--cpu", str(j["cpu"])]
        if tier == "thorough": cmd.append("--thorough")
        if j["parts"]: cmd += ["--part", j["parts"]]
        if j["threads"]: cmd += ["--threads", str(j["threads"])]
        if j["wrap"] == "memcheck":
            cmd = MEMCHECK + cmd; env["VH_MEMCHECK"] = "1"
        errf = out + ".err"
        with open(errf, "wb") as ef:
            rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=scratch).returncode
        if rc in (-9, 97) and retries > 0:   # killed from outside or out of CPU budget: run the same range once more before judging
            retries -= 1; pending.append((lo, hi)); continue
        if rc == -9: res["errors"].append(f"shard {shard} of {j['name']} was killed twice"); break
        if rc == 0 and os.path.exists(out):
            d = json.load(open(out))
            res["cases"] += d["cases"]; res["evals"] += d["evals"]
            for k, v in d["counters"].items(): res["counters"][k] = res["counters"].get(k, 0) + v
            res["samples"] += d["samples"]; res["fails"] += d["fails"]
            raw = open(out + ".fp", "rb").read()
            res["fps"].update(struct.unpack(f"{len(raw)//8}Q", raw))
        else:
            err = open(errf, errors="replace").read()
            cur = lo
            try: cur = struct.unpack("Q", open(prog, "rb").read(8))[0]
            except Exception: pass
            res["fails"].append(dict(case=cur, key=crash_key(err, rc), msg=err[:3000] or f"exit code {rc}"))
            crashes += 1
            if crashes > 3: break
            pending += [(lo, cur), (cur + SHARDS, hi)]
    return res

def load_known(pid):
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

def check(pid, tier):
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    if os.environ.get("VERIF_JOB"): P = dict(P, jobs=[j for j in P["jobs"] if j["name"] == os.environ["VERIF_JOB"]])  # development: a single monitor
    build(P["jobs"]); tb = time.time() - t0
    known = load_known(pid)
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    viols, seen_known = [], set(); cov = {}; cases = evals = 0; fps = set(); samples = []; jobs_ev = []; errors = []
    try:
        for j in P["jobs"]:
            total = j[tier]
            with ThreadPoolExecutor(SHARDS) as ex:
                rs = list(ex.map(lambda s: run_shard(j, seed, s, total, tier, tmp), range(SHARDS)))
            jc = je = 0; 
            for r in rs: errors += r['errors']
            for r in rs:
                jc += r["cases"]; je += r["evals"]; fps |= r["fps"]; samples += r["samples"][:1]
                for k, v in r["counters"].items(): cov[k] = cov.get(k, 0) + v
                for f in r["fails"]:
                    if j["only"] == "crash" and not f["key"].startswith("crash:"): continue  # that job decides memory and abort violations only
                    viols.append((j, f))
            cases += jc; evals += je
            jobs_ev.append(dict(monitor=j["name"], build=j["flavor"], cases=jc, monitor_evaluations=je))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(EVID, exist_ok=True); os.makedirs(f"{BUILD}/replays", exist_ok=True)
    bykey = {}
    for j, f in sorted(viols, key=lambda x: x[1]["case"]): bykey.setdefault(f["key"], (j, f))
    out = []
    for key, (j, f) in bykey.items():
        safe = re.sub(r"\s+", "_", key)
        if safe in known: seen_known.add(safe); continue
        h = hashlib.sha1((pid + key).encode()).hexdigest()[:8]
        rp = f"{BUILD}/replays/{pid}-{h}.json"
        json.dump(dict(property=pid, job=j["name"], tier=tier, seed=seed, case=f["case"], key=key, msg=f["msg"]), open(rp, "w"), indent=1)
        out.append((key, rp, f))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(fps), rule=P["rule"],
                            samples=samples[:6] or ["(none)"], cases=cases, jobs=jobs_ev, observed=dict(sorted(cov.items()))),
              assumptions=P["assumptions"], wall_s=round(time.time() - t0, 2), build_s=round(tb, 2),
              violations=len(out), violation_details=[dict(key=k, replay=r, msg=f["msg"][:400]) for k, r, f in out])
    json.dump(ev, open(f"{EVID}/{pid}.json", "w"), indent=1)
    for k, what in known.items():
        print(f"KNOWN-FINDING: property={pid} {what}" + ("" if k in seen_known else " (not reproduced in this run)"))
    for key, rp, f in out[:12]:
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  key={key} case={f['case']}\n  " + f["msg"][:700].replace("\n", "\n  "))
    print(f"{pid} {tier}: {cases} cases, {evals} monitor evaluations, {len(fps)} distinct fingerprints, "
          f"{len(out)} violation(s), {time.time()-t0:.1f}s (build {tb:.1f}s)")
    if out: return 1
    if errors: print("HARNESS-ERROR: " + "; ".join(errors)); return 2
    if evals == 0 or cases == 0: print("HARNESS-ERROR: nothing was observed"); return 2
    return 0

def replay(path):
    r = json.load(open(path)); P = PROPS[r["property"]]
    j = next(x for x in P["jobs"] if x["name"] == r["job"])
    build([j]); env = dict(os.environ); env.update(SANENV); env["VH_REPO"] = REPO
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        cmd = [j["bin"], "--seed", str(r["seed"]), "--from", str(r["case"]), "--to", str(r["case"] + 1), "--step", "1",
               "--scratch", tmp, "--verbose", "--out", tmp + "/o.json"] + (["--thorough"] if r["tier"] == "thorough" else []) + (["--part", j["parts"]] if j["parts"] else []) + (["--threads", str(j["threads"])] if j["threads"] else [])
        if j["wrap"] == "memcheck": cmd = MEMCHECK + cmd; env["VH_MEMCHECK"] = "1"
        rc = subprocess.run(cmd, env=env, cwd=tmp).returncode
        bad = rc != 0 or (j["only"] != "crash" and bool(json.load(open(tmp + "/o.json"))["fails"]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if bad: print(f"VIOLATION property={r['property']} replay={path}"); return 1
    print("not reproduced"); return 0

def main():
    a = sys.argv[1:]
    if a and a[0] == "replay": sys.exit(replay(a[1]))
    if a and a[0] == "build":
        jobs = [j for p, P in PROPS.items() if len(a) == 1 or p in a[1:] for j in P["jobs"]]
        build(jobs); print(f"built {len(jobs)} monitors"); sys.exit(0)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(check(a[0], tier))
main()
