#!/usr/bin/env python3
"""plant.py SPEC.py...: write /verif/seeded/<id>/ from a spec, confirm it, and run the property's check against it.

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (C++ or Python text) and optionally
CXX (extra compiler flags), SOURCES (repo sources to compile in), PYDEMO = True, DEMO_SH (whole script).
Confirmation (in /repo, which must be clean): the demonstration passes, the patch applies, the build and the stable tests pass
with it, the demonstration then fails.  /repo is restored afterwards.
"""
import json, os, subprocess, sys, time
SEEDED = "/verif/seeded"
SH = """#!/bin/bash
# usage: cd /repo && demo.sh   (exit 0: the property holds, nonzero: it does not)
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'find "$tmp" -delete' EXIT
g++ -std=gnu++17 %(cxx)s -w -I include -isystem /usr/include/eigen3 "$here/demo.cpp" %(sources)s -o "$tmp/demo" %(libs)s || exit 2
cd "$tmp" && timeout 200 ./demo
"""
PYSH = """#!/bin/bash
# usage: cd /repo && demo.sh   (exit 0: the property holds, nonzero: it does not)
here="$(cd "$(dirname "$0")" && pwd)"
OMP_WAIT_POLICY=passive PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/_build timeout 250 python3 "$here/demo.py"
"""
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def main(spec):
    s = {}
    exec(open(spec).read(), s)
    d = f"{SEEDED}/{s['ID']}"
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
    try:
        for f, old, new in s["EDITS"]:
            p = f"/repo/{f}"
            t = open(p).read()
            assert t.count(old) >= 1, f"{s['ID']}: text not found in {f}: {old!r}"
            assert t.count(old) == 1 or s.get("FIRST"), f"{s['ID']}: text not unique in {f}: {old!r}"
            open(p, "w").write(t.replace(old, new, 1))
        open(f"{d}/patch.diff", "wb").write(sh("git -C /repo diff").stdout)
    finally:
        sh("git -C /repo checkout -- .")
    json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(f"{d}/meta.json", "w"), indent=1)
    if s.get("PYDEMO"):
        open(f"{d}/demo.py", "w").write(s["DEMO"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write(PYSH)
    else:
        open(f"{d}/demo.cpp", "w").write(s["DEMO"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write(s.get("DEMO_SH") or SH % dict(cxx=s.get("CXX", "-O1 -fopenmp"), sources=s.get("SOURCES", ""), libs=s.get("LIBS", "")))
    os.chmod(f"{d}/demo.sh", 0o755)
    confirm(s["ID"], s["PROPERTY"])

def confirm(i, prop, check=True):
    d = f"{SEEDED}/{i}"
    log = []
    sh("bash /opt/vp/build.sh small_gicp_python", cwd="/repo")
    r = sh("bash " + f"{d}/demo.sh", cwd="/repo")
    ok0 = r.returncode
    if ok0:
        print(r.stdout.decode()[-1500:])
    try:
        a = sh(f"git -C /repo apply --check {d}/patch.diff && git -C /repo apply {d}/patch.diff")
        assert a.returncode == 0, a.stdout
        t0 = time.time()
        b = 0  # test.sh builds the tests and the Python package
        sh("bash /opt/vp/test.sh /tmp/seedtool/out.json", cwd="/repo")
        out = json.load(open("/tmp/seedtool/out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base["passed"] if isinstance(base, dict) and "passed" in base else base.get("stable", [])
        missing = [t for t in stable if t not in out["passed"]]
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        print(f"{i}: build rc={b} stable={len(stable)} missing={missing[:5]} demo clean={ok0} patched={r.returncode} :: {r.stdout.decode()[-300:].strip()}")
        if check:
            t0 = time.time()
            c = sh(f"cd /verif && python3 check.py {prop}", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            o = c.stdout.decode()
            print(f"   check {prop}: rc={c.returncode} {'CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + prop in o else 'MISSED'} {time.time() - t0:.0f}s")
            print("\n".join("      " + l[:200] for l in o.splitlines() if "FAIL" in l or "VIOLATION" in l or c.returncode == 2))
    finally:
        sh("git -C /repo checkout -- .")
    sys.stdout.flush()
if __name__ == "__main__":
    for x in sys.argv[1:]:
        if x.startswith("@"):
            confirm(x[1:], json.load(open(f"{SEEDED}/{x[1:]}/meta.json"))["property"])
        else:
            try:
                main(x)
            except AssertionError as e:
                print(x, "ASSERT", e)
