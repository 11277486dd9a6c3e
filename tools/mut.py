#!/usr/bin/env python3
"""mut.py FILE OLD NEW PROP...: apply a textual change to a scratch copy of /repo and run the checks against it (quick tier)."""
import os, shutil, subprocess, sys, tempfile
f, old, new, props = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
try:
    # the committed state, whatever is applied to the working tree at the moment
    subprocess.run("git -C /repo archive HEAD include src data | tar -x -C " + d, shell=True, check=True)
    shutil.copytree("/verif", f"{d}/verif", ignore=shutil.ignore_patterns("build", ".git", "replay", "seeded"))
    os.makedirs(f"{d}/verif/build")
    if old == "PATCH":
        subprocess.run(["patch", "-p1", "-s", "-i", new], cwd=d, check=True)
    elif old == "REVERT":
        diff = subprocess.run(["git", "-C", "/repo", "show", new], stdout=subprocess.PIPE, check=True).stdout
        subprocess.run(["patch", "-p1", "-s", "-R"], cwd=d, input=diff, check=True)
    else:
        p = os.path.join(d, f)
        s = open(p).read()
        n = s.count(old)
        if n == 0:
            print("OLD TEXT NOT FOUND"); sys.exit(9)
        open(p, "w").write(s.replace(old, new, 1))
    for pr in props:
        r = subprocess.run(["python3", "check.py", pr], cwd=f"{d}/verif", env=dict(os.environ, PBT_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode()
        v = "CAUGHT" if r.returncode == 1 and "VIOLATION" in out else f"rc={r.returncode}"
        print(pr, v)
        print("\n".join("   " + l[:300] for l in out.splitlines() if "stage" in l or "FAIL" in l or "case:" in l or "inconcl" in l or r.returncode == 2 or "SUMMARY" in l))
finally:
    shutil.rmtree(d, ignore_errors=True)
