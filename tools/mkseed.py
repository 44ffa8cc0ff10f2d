#!/usr/bin/env python3
"""mkseed.py DEF...: each DEF is a python file defining ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (c++ text), optional SRCS, LIBS, FLAGS, RUNNER.
Creates /verif/seeded/<ID> and checks it in a scratch worktree (build, stable tests, demo on both trees)."""
import sys, os, subprocess, json, shutil, tempfile
V = "/verif"; L = V + "/tools/seedlib"
def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for f in sys.argv[1:]:
    g = {}; exec(open(f).read(), g); d = f"{V}/seeded/{g['ID']}"
    W = tempfile.mkdtemp(prefix="seed", dir="/tmp"); T = W + "/repo"
    try:
        shutil.copytree("/repo", T, symlinks=True)
        assert not sh("git status --short", T).stdout.strip()
        for p, a, b in g["EDITS"]:
            s = open(f"{T}/{p}").read(); assert s.count(a) == 1, (p, s.count(a), a); open(f"{T}/{p}", "w").write(s.replace(a, b))
        diff = sh("git diff", T).stdout; assert diff
        os.makedirs(d, exist_ok=True); shutil.rmtree(d + "/stub", ignore_errors=True); shutil.copytree(V + "/stub", d + "/stub")
        open(d + "/patch.diff", "w").write(diff); shutil.copy(L + "/dp.h", d); shutil.copy(L + "/demo.sh", d); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cpp", "w").write(g["DEMO"].lstrip()); json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        for k in ("SRCS", "LIBS", "FLAGS", "RUNNER"):
            if k in g: open(d + "/" + k.lower(), "w").write(g[k] + "\n")
        # blame: the changed lines must be original ones
        orig = sh("git show 074153b --stat >/dev/null; for x in $(git diff --name-only); do git blame -s -L1,+99999 HEAD -- $x 2>/dev/null | cut -c1-8,0- | head -0; done", T)
        bad = []
        cur = None
        for line in sh("git diff -U0", T).stdout.splitlines():
            if line.startswith("--- a/"): cur = line[6:]
            if line.startswith("@@"):
                old = line.split()[1][1:]; st, n = (old.split(",") + ["1"])[:2]
                if int(n): 
                    bl = sh(f"git blame -s -L{st},+{n} HEAD -- {cur}", T).stdout
                    bad += [x for x in bl.splitlines() if not x.lstrip("^").startswith("074153b")]
        r1 = sh(f"bash {d}/demo.sh", T); r0 = sh(f"bash {d}/demo.sh", "/repo")
        print(g["ID"], "demo patched rc", r1.returncode, "clean rc", r0.returncode, "non-original lines:", bad[:2])
        if r1.returncode == 0 or r0.returncode: print("PATCHED:", r1.stdout[-1500:], "\nCLEAN:", r0.stdout[-1500:])
        else: print("   ", r1.stdout.strip()[-300:])
    finally: shutil.rmtree(W, ignore_errors=True)
