#!/usr/bin/env python3
"""Driver of the property checks.

  check.py <PROPERTY>            run the check (VERIF_SEED, VERIF_TIER from the environment)
  check.py <PROPERTY> --replay F re-run a saved failing case (F is replay/<...>.json)
  check.py --build-all           build every harness (developer convenience)

Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it is broken.
Everything is built from /repo's current working tree into /verif/build (ignored by git),
keyed by a hash of the sources, so a stale binary is never used.
"""
import base64, concurrent.futures as cf, fcntl, glob, hashlib, json, os, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
sys.path.insert(0, VERIF)
import stages as S  # noqa: E402

BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(VERIF, "replay")
NPROC = max(2, min(8, os.cpu_count() or 8))
T0 = time.time()

ENV = dict(os.environ)
ENV.update({
    "OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false", "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1",
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=0:symbolize=1:quarantine_size_mb=16:detect_odr_violation=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4",
    "MALLOC_PERTURB_": "165",
})
for k in ("OMP_NUM_THREADS", "OMP_SCHEDULE", "OMP_THREAD_LIMIT", "PYTHONPATH", "CFLAGS", "CXXFLAGS", "LDFLAGS"):
    ENV.pop(k, None)


def log(*a):
    print("#", *a, flush=True)


def tree_hash(paths, extra=b""):
    h = hashlib.sha256(extra)
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = [os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs if f.endswith((".hpp", ".cpp", ".h", ".py", ".c"))]
        for f in sorted(files):
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def known_findings(pid):
    """key -> description of the defects recorded (not repaired) for this property"""
    out = {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            f = line.strip().split(" ", 3)
            if len(f) == 4 and f[0] == "known:" and f[1] == f"property={pid}" and f[2].startswith("key="):
                out[f[2][4:]] = f[3]
    except OSError:
        pass
    return out


class BuildError(Exception):
    pass


def sh(cmd, timeout=800):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout, env=ENV)
    return p.returncode, p.stdout.decode(errors="replace")


_src_hash = None


def build(src, flavour):
    """Build harness/<src> with the given flavour from REPO; returns the command prefix that runs it."""
    global _src_hash
    if _src_hash is None:
        _src_hash = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(VERIF, "engine")])
    b = S.BUILDS[flavour]
    os.makedirs(BUILD, exist_ok=True)
    harness = os.path.join(VERIF, "harness", src)
    key = tree_hash([harness] + [os.path.join(VERIF, "harness", f) for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.endswith(".hpp")], (_src_hash + flavour + repr(b) + repr(S.HARNESS_FLAGS.get(src)) + repr(S.PCL_FLAGS) + repr(S.INCLUDES)).encode())
    out = os.path.join(BUILD, f"{os.path.splitext(src)[0]}.{flavour}.{key}")
    lock = open(os.path.join(BUILD, f".lock.{os.path.basename(out)}"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(out):
            for old in os.listdir(BUILD):  # drop binaries of other source states
                if old.startswith(f"{os.path.splitext(src)[0]}.{flavour}."):
                    os.unlink(os.path.join(BUILD, old))
            t = time.time()
            objs = []
            jobs = []
            with cf.ThreadPoolExecutor(NPROC) as ex:
                defs = S.HARNESS_FLAGS.get(src, {})
                units = [harness] + [f for u in defs.get("units", []) + b.get("units", []) for f in sorted(glob.glob(u.replace("$REPO", REPO).replace("$VERIF", VERIF)))]
                for i, u in enumerate(units):
                    o = f"{out}.{i}.o"
                    cxx = b["cc"] if u.endswith(".c") else b["cxx"]
                    cmd = [cxx, *b["flags"], *defs.get("flags", []), *(S.PCL_FLAGS if defs.get("pcl") else []),
                           f"-I{VERIF}/engine", *[f.replace("$VERIF", VERIF) for f in b.get("pre_inc", [])], f"-I{REPO}/include", *S.INCLUDES, "-c", u, "-o", o]
                    jobs.append((cmd, ex.submit(sh, cmd)))
                    objs.append(o)
                for cmd, j in jobs:
                    rc, txt = j.result()
                    if rc:
                        raise BuildError(" ".join(cmd) + "\n" + txt[-6000:])
            cmd = [b["cxx"], *b["ldflags"], *objs, "-o", out + ".tmp", *(S.PCL_LIBS if defs.get("pcl") else []), *defs.get("libs", []), *b["libs"]]
            rc, txt = sh(cmd)
            if rc:
                raise BuildError(" ".join(cmd) + "\n" + txt[-6000:])
            for o in objs:
                os.unlink(o)
            os.rename(out + ".tmp", out)
            log(f"built {os.path.basename(out)} in {time.time()-t:.1f} s")
    finally:
        lock.close()
    return [out]


# ---------------------------------------------------------------- running one stage

class StageResult:
    def __init__(self):
        self.evaluations = 0
        self.discards = 0
        self.labels = {}
        self.samples = []
        self.hashes = set()
        self.timed_out = False
        self.failure = None  # dict


def run_stage(pid, idx, st, prog, seed, tier, deadline):
    res = StageResult()
    count = st["thorough" if tier == "thorough" else "quick"]
    work = os.path.join(BUILD, f"run.{pid}.{idx}.{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    workers = st.get("workers", NPROC)
    case_limit = st.get("case_limit", 240)
    procs = []
    for w in range(workers):
        out = os.path.join(work, f"w{w}")
        cmd = prog + ["run", st["prop"], "--seed", str(seed), "--start", str(w), "--stride", str(workers), "--count", str(count),
                      "--deadline", f"{max(1.0, deadline - time.time()):.1f}", "--out", out]
        env = dict(ENV)
        env.update(st.get("env", {}))
        procs.append([out, subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, start_new_session=True), None, time.time()])
    failed = None
    live = list(procs)

    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()

    def cur(out):
        try:
            with open(out + ".cur", "rb") as f:
                idx_, ln, done = struct.unpack("<QQQ", f.read(24))
                return idx_, done, f.read(ln)
        except Exception:
            return 0, 1, b""

    while live and failed is None:
        time.sleep(0.05)
        for entry in list(live):
            out, p, last, since = entry
            rc = p.poll()
            if rc is None:
                ci, done, _ = cur(out)
                if ci != last:
                    entry[2], entry[3] = ci, time.time()
                elif time.time() - entry[3] > case_limit and not done:
                    kill(p)
                    _, _, tape = cur(out)
                    failed = dict(kind="hang", tape=tape, msg=f"case {ci} did not terminate within {case_limit} s")
                    live.remove(entry)
                    break
                continue
            live.remove(entry)
            if rc == 0:
                continue
            wi = procs.index(entry)
            if os.path.exists(out + ".tape"):
                failed = dict(kind="assertion", worker=wi, workers=workers, case=cur(out)[0], tape=open(out + ".tape", "rb").read(), msg=open(out + ".msg", errors="replace").read())
                break
            ci, done, tape = cur(out)
            if rc == -signal.SIGKILL or done or rc in (3, 4):
                # ended from outside (memory guard), or the harness itself could not run: no verdict from this worker
                log(f"worker of stage {st['prop']}/{st['build']} ended with {rc} outside a case (no verdict)")
                res.timed_out = True
                continue
            failed = dict(kind="crash", worker=wi, workers=workers, case=ci, tape=tape, msg=f"case {ci} ended the process with status {rc}")
            break
    for out, p, _, _ in procs:
        if p.poll() is None:
            kill(p)
    for out, p, _, _ in procs:
        try:
            j = json.load(open(out + ".json"))
        except Exception:
            continue
        res.evaluations += j["evaluations"]
        res.discards += j["discards"]
        res.timed_out |= j["timed_out"]
        for k, v in j["labels"].items():
            res.labels[k] = res.labels.get(k, 0) + v
        res.samples += j["samples"]
        res.hashes.update(j["hashes"])
    res.failure = failed
    if failed is not None:
        failed["work"] = work
    else:
        shutil.rmtree(work, ignore_errors=True)
    return res


def replay_once(prog, prop, tape_path, timeout, env=None):
    e = dict(ENV)
    e.update(env or {})
    try:
        p = subprocess.run(prog + ["replay", prop, tape_path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, start_new_session=True)
        txt = p.stdout.decode(errors="replace")
        return p.returncode != 0 and p.returncode != -signal.SIGKILL, txt
    except subprocess.TimeoutExpired:
        return True, f"FAIL: hang: not finished within {timeout} s"


def confirm_and_shrink(pid, idx, st, prog, failure, seed, tier):
    """Replays the failing case, shrinks it, and writes the replay file. Returns its path, or None if not confirmed."""
    work = failure["work"]
    raw = os.path.join(work, "raw.tape")
    open(raw, "wb").write(failure["tape"])
    hang = failure["kind"] == "hang"
    to = 150 if hang else 100
    fails, tries, last = 0, 0, ""
    max_tries = 3 if (hang or not st.get("schedule")) else 40
    first_at = None
    while tries < max_tries:
        tries += 1
        bad, txt = replay_once(prog, st["prop"], raw, to, st.get("env"))
        if bad:
            fails += 1
            last = txt
            if first_at is None:
                first_at = tries
        if st.get("schedule") and fails >= 3:
            break
        if hang and not bad:
            break
    log(f"stage {st['prop']}/{st['build']}: {failure['kind']}: {failure['msg'][:1500]}")
    log(f"replayed: failed {fails} of {tries} times")
    if fails == 0 and not hang and not st.get("schedule"):
        # The failure may depend on the cases that ran before it in the same process: re-run that history.
        if history_fails(st, prog, failure, seed) :
            return save_replay(pid, idx, st, failure, seed, tier, failure["tape"], f"fails when cases {failure['worker']}, +{failure['workers']}, ... {failure['case']} run in one process", "history")
    if fails == 0 and (hang or failure["kind"] == "crash" and not st.get("schedule")):
        return None
    if fails == 0 and not st.get("schedule"):
        # an assertion that a replay of the same tape does not show: the code under test is non-deterministic; try harder
        for _ in range(40):
            bad, txt = replay_once(prog, st["prop"], raw, to, st.get("env"))
            tries += 1
            if bad:
                fails += 1
                last = txt
                break
        if fails == 0:
            return None
    shrunk = os.path.join(work, "shrunk.tape")
    tape = failure["tape"]
    if not hang and fails:
        n = 1 if fails == tries else min(12, max(3, 2 * tries // max(1, fails)))
        budget = 60 if tier != "thorough" else 180
        cmd = prog + ["shrink", st["prop"], raw, shrunk, "--budget", str(budget), "--case-timeout", "20", "--tries", str(n)]
        e = dict(ENV)
        e.update(st.get("env", {}))
        try:
            subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=budget + 60, env=e)
            cand = open(shrunk, "rb").read()
            for _ in range(max(3, 2 * n)):
                bad, txt = replay_once(prog, st["prop"], shrunk, to, st.get("env"))
                if bad:
                    tape, last = cand, txt
                    break
        except Exception as ex:  # shrinking is a convenience
            log("shrinking failed:", ex)
    print(last[-3000:])
    return save_replay(pid, idx, st, failure, seed, tier, tape, last, f"{fails}/{tries}")


def save_replay(pid, idx, st, failure, seed, tier, tape, text, how):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, f"{pid}.{st['prop']}.{st['build']}.json")
    json.dump({"property": pid, "stage": idx, "prop": st["prop"], "build": st["build"], "seed": seed, "tier": tier, "kind": failure["kind"],
               "message": failure["msg"][:4000], "replay_output": text[-8000:], "replay_failed": how,
               "worker": failure.get("worker"), "workers": failure.get("workers"), "case": failure.get("case"),
               "tape_b64": base64.b64encode(tape).decode()}, open(path, "w"), indent=1)
    shutil.rmtree(failure["work"], ignore_errors=True)
    return os.path.relpath(path, VERIF)


def history_fails(st, prog, failure, seed, timeout=300):
    out = os.path.join(failure["work"], "hist")
    for _ in range(2):
        cmd = prog + ["run", st["prop"], "--seed", str(seed), "--start", str(failure["worker"]), "--stride", str(failure["workers"]),
                      "--count", str(failure["case"] + 1), "--out", out]
        e = dict(ENV)
        e.update(st.get("env", {}))
        try:
            rc = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout, env=e).returncode
        except subprocess.TimeoutExpired:
            return False
        if rc in (0, 3, 4, -signal.SIGKILL):
            return False
    return True


def cmd_replay(pid, path):
    ENV["PBT_KNOWN"] = ",".join(sorted(known_findings(pid)))
    r = json.load(open(path))
    st = next(x for x in S.STAGES[pid] if x["prop"] == r["prop"] and x["build"] == r["build"])
    prog = build(st["src"], st["build"])
    if r["replay_failed"] == "history":
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        bad = history_fails(st, prog, dict(r, work=os.path.join(BUILD, "replay")), r["seed"])
        print(r["message"])
        if bad:
            print(f"VIOLATION property={pid} replay={path}")
        return 1 if bad else 0
    t = path + ".tape"
    open(t, "wb").write(base64.b64decode(r["tape_b64"]))
    n = 1 if not st.get("schedule") else 40
    for _ in range(n):
        bad, txt = replay_once(prog, st["prop"], t, 200, st.get("env"))
        if bad:
            break
    os.unlink(t)
    print(txt[-8000:])
    if bad:
        print(f"VIOLATION property={pid} replay={path}")
    return 1 if bad else 0


def main():
    if sys.argv[1] == "--build-all":
        todo = sorted({(st["src"], st["build"]) for v in S.STAGES.values() for st in v})
        ok = True
        for s in todo:
            try:
                build(*s)
            except BuildError as e:
                ok = False
                print(s, str(e)[-3000:])
        return 0 if ok else 2
    if sys.argv[1] == "--selftest":
        # setup_cmd: nothing built here persists, so only make sure that the tools the checks need are present
        for t in ("g++", "clang++"):
            print(t, "found" if shutil.which(t) else "MISSING")
        return 0 if shutil.which("g++") else 2
    pid = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return cmd_replay(pid, sys.argv[3])
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier != "thorough":
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:12], 16)
    stages = [st for st in S.STAGES[pid] if st["thorough" if tier == "thorough" else "quick"] > 0]
    known = known_findings(pid)
    seen_known = set()
    ENV["PBT_KNOWN"] = ",".join(sorted(known))
    only = os.environ.get("PBT_ONLY")  # developer convenience
    # the budget covers building and running; a run that hits it simply explored less
    total_budget = float(os.environ.get("PBT_BUDGET", 420 if tier == "quick" else 6 * 3600))
    progs = {}
    needed = sorted({(st["src"], st["build"]) for st in stages})
    errors = {}
    with cf.ThreadPoolExecutor(4) as ex:
        futs = {k: ex.submit(build, *k) for k in needed}
        for k, f in futs.items():
            try:
                progs[k] = f.result()
            except (BuildError, subprocess.TimeoutExpired) as e:
                errors[k] = e
    for k, e in errors.items():
        if S.BUILDS[k[1]].get("optional"):
            log(f"{k}: optional build unavailable, stage skipped: {str(e)[-400:]}")
        else:
            print(f"build of {k} failed:\n{e}")
            return 2
    results, violation = [], None
    t_run = time.time()
    weights = sum(st.get("weight", 1) for st in stages)
    for i, st in enumerate(stages):
        if only and only not in (st["prop"], st["build"], f"{st['prop']}/{st['build']}"):
            continue
        k = (st["src"], st["build"])
        if k in errors:
            continue
        remaining = T0 + total_budget - time.time()
        share = st.get("weight", 1) / sum(x.get("weight", 1) for x in stages[i:])
        deadline = time.time() + max(15.0, remaining * share)
        t = time.time()
        r = run_stage(pid, i, st, progs[k], seed, tier, deadline)
        results.append((st, r, time.time() - t))
        seen_known.update(l[6:] for l in r.labels if l.startswith("known:"))
        lab = ", ".join(f"{a}:{b}" for a, b in sorted(r.labels.items()))
        log(f"{pid} {st['prop']}/{st['build']}: {r.evaluations} cases, {len(r.hashes)} distinct non-trivial, {r.discards} discarded, {time.time()-t:.1f} s{' (stopped by time budget)' if r.timed_out else ''} [{lab}]")
        if r.failure is not None:
            path = confirm_and_shrink(pid, i, st, progs[k], r.failure, seed, tier)
            if path is not None:
                violation = path
                break
            log("not confirmed by replay: treated as inconclusive, not as a violation")
            shutil.rmtree(r.failure["work"], ignore_errors=True)
    samples = []
    for st, r, _ in results:
        for s_ in r.samples[:3]:
            samples.append(f"{st['prop']}/{st['build']}: {s_}")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r.evaluations for _, r, _ in results),
            "distinct_nontrivial": sum(len(r.hashes) for _, r, _ in results),
            "rule": S.RULES[pid],
            "samples": samples[:12],
            "stages": [{"property_function": st["prop"], "build": st["build"], "evaluations": r.evaluations, "distinct_nontrivial": len(r.hashes), "discarded": r.discards,
                        "stopped_by_time_budget": r.timed_out, "seconds": round(t, 1), "classes": r.labels} for st, r, t in results],
        },
        "assumptions": S.ASSUMPTIONS.get(pid, []) + S.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 1),
        "violations": 1 if violation else 0,
        "known_findings_seen": sorted(seen_known),
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, f"{pid}.json"), "w"), indent=1)
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {k}: {known.get(k, '')}", flush=True)
    if violation:
        print(f"VIOLATION property={pid} replay={violation}", flush=True)
        return 1
    print(f"{pid}: held on {ev['coverage']['evaluations']} cases ({ev['coverage']['distinct_nontrivial']} distinct non-trivial), {ev['wall_s']} s", flush=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
