"""Check one property.  usage: run.py ID [--tier quick|thorough] [--replay FILE] [--target NAME]"""
import argparse, importlib, json, os, shutil, signal, subprocess, sys, tempfile, threading, time, zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import build, core  # noqa: E402

PY = sys.executable
NCPU = min(8, os.cpu_count() or 4)


def worker_env(tgt, tmp):
    e = dict(os.environ)
    for k in ("LD_PRELOAD", "PYTHONPATH"):
        e.pop(k, None)
    e["PYTHONHASHSEED"] = "0"
    e["VF_TMP"] = tmp
    e["TZ"] = "UTC"
    e["LC_ALL"] = "C.UTF-8"
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:"
                         "detect_stack_use_after_return=0:handle_abort=1:print_legend=0:"
                         "quarantine_size_mb=16:malloc_context_size=12")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66"
    if tgt.lib:
        e["LD_PRELOAD"] = build.asan_preload()
    return e


def spawn(prop, tgt, args, tmp, tag, timeout):
    """Run a worker; returns (result dict or None, stderr text)."""
    out = os.path.join(tmp, tag + ".json")
    err = os.path.join(tmp, tag + ".err")
    wtmp = os.path.join(tmp, tag + ".d")
    os.makedirs(wtmp, exist_ok=True)
    cmd = [PY, os.path.join(HERE, "vf", "worker.py"), prop, tgt.name, "--out", out] + args
    with open(err, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, cwd=wtmp,
                             env=worker_env(tgt, wtmp), start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = -999
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    with open(err, "rb") as ef:
        ef.seek(0, 2)
        n = ef.tell()
        ef.seek(max(0, n - 60000))
        txt = ef.read().decode(errors="replace")
    try:
        os.truncate(err, 0)
    except OSError:
        pass
    res = None
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
        os.unlink(out)
    shutil.rmtree(wtmp, ignore_errors=True)
    return res, rc, txt


def crash_summary(rc, txt):
    keep = [l for l in txt.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assertion" in l
            or "SUMMARY" in l or "Timeout (" in l]
    if rc == -999:
        keep.append("worker did not finish in time")
    if rc == -14:
        keep.append("the case did not finish in time")
    return "process died (status %s): %s" % (rc, " | ".join(keep)[:1500] or txt[-800:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--target")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    prop = a.prop.upper()
    t0 = time.monotonic()
    signal.signal(signal.SIGTERM, lambda *x: sys.exit(3))

    mod = importlib.import_module("props." + prop.lower())
    targets = [t for t in mod.TARGETS if not a.target or t.name == a.target]
    try:
        for l in sorted({t.lib for t in targets if t.lib} | set(getattr(mod, 'LIBS', ()))):
            build.LIBS[l]()
        for b in getattr(mod, "BINS", ()):
            build.BINS[b]()
    except build.BuildError as e:
        print("BUILD FAILED:", e)
        sys.exit(2)
    tbuild = time.monotonic() - t0
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    # Daemons whose worker was killed become our children.
    import ctypes
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    try:
        rc = real_main(a, prop, mod, targets, tmp, t0, tbuild)
    finally:
        end_children()
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def end_children():
    for _ in range(3):
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    with open("/proc/%s/stat" % d) as f:
                        if int(f.read().rsplit(")", 1)[1].split()[1]) != os.getpid():
                            continue
                    os.kill(int(d), signal.SIGKILL)
                    os.waitpid(int(d), 0)
                except OSError:
                    continue


def replay_n(prop, tgt, path, tmp, n=3):
    """How many of n fresh-process replays fail, and the last message."""
    bad, msg = 0, None
    for i in range(n):
        res, rc, txt = spawn(prop, tgt, ["--replay", path], tmp, "replay%d" % i, tgt.case_timeout * 2 + 30)
        if res is None:
            bad += 1
            msg = crash_summary(rc, txt)
        elif res["violation"]:
            bad += 1
            msg = res["violation"]["msg"]
        else:
            break
    return bad, msg


def isolated(prop, t, args, tmp, path, rec):
    """Search and shrink again with every case in its own child process; the record of a case which fails alone, or None."""
    fargs = list(args)
    fargs[fargs.index("--budget") + 1] = "60"
    res, rc, txt = spawn(prop, t, fargs + ["--fork", "--shrink", "40"], tmp, "shr", 200)
    if not res or not res["violation"]:
        return None
    rec2 = dict(rec, case=res["violation"]["case"])
    p2 = path + ".min"
    with open(p2, "w") as f:
        json.dump(rec2, f, indent=1)
    k2, m2 = replay_n(prop, t, p2, tmp)
    os.unlink(p2)
    return dict(rec2, msg=m2) if k2 == 3 else None


def real_main(a, prop, mod, targets, tmp, t0, tbuild):
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        tgt = {t.name: t for t in mod.TARGETS}[r["target"]]
        if r.get("case") is not None:
            bad, msg = replay_n(prop, tgt, a.replay, tmp)
        else:
            bad, msg = 0, None
            for i in range(3):
                res, rc, txt = spawn(prop, tgt, r["worker_args"], tmp, "rw%d" % i, r["timeout"])
                if res is None or res["violation"]:
                    bad += 1
                    msg = crash_summary(rc, txt) if res is None else res["violation"]["msg"]
        print("replay: %d of 3 runs failed%s" % (bad, ": " + msg if msg else ""))
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0

    jobs = []
    for t in targets:
        w, n, secs = t.quick if a.tier == "quick" else t.thorough
        for i in range(w):
            jobs.append((t, i, w, int(n * a.scale) if n else 0, secs * max(1.0, a.scale)))
    # Longest first.
    jobs.sort(key=lambda j: -j[4])
    results, lock = [], threading.Lock()
    stop = threading.Event()
    seqlock = threading.Lock()

    def runjob(t, i, w, n, secs):
        h = zlib.crc32((prop + t.name).encode()) % 100000
        args = ["--tier", a.tier, "--seed", str(a.seed * 100003 + h), "--index", str(i), "--nworkers", str(w),
                "--examples", str(n), "--budget", str(secs)]
        tag = "%s.%d" % (t.name, i)
        cur = os.path.join(tmp, tag + ".cur")
        to = secs + 60 + 2 * t.case_timeout + 30
        res, rc, txt = spawn(prop, t, args + ["--cur", cur], tmp, tag, to)
        case = None
        if res is None and os.path.exists(cur):
            try:
                with open(cur) as f:
                    case = json.load(f)
            except ValueError:
                pass
        with lock:
            results.append((t, i, args, to, res, rc, txt, case))
        if res is None or res["violation"]:
            stop.set()

    def pool():
        while not stop.is_set():
            with lock:
                if not jobs:
                    return
                j = jobs.pop(0)
            if j[0].sequential:
                with seqlock:
                    runjob(*j)
            else:
                runjob(*j)

    ths = [threading.Thread(target=pool) for _ in range(NCPU)]
    for th in ths:
        th.start()
    for th in ths:
        th.join()

    # Merge.
    ev = dict(evals=0, classes={}, samples=[], nt=set(), per={})
    bad = []
    for t, i, args, to, res, rc, txt, case in results:
        if res is None:
            if rc == 70:
                print("HARNESS ERROR in %s/%s:\n%s" % (prop, t.name, txt[-3000:]))
                return 2
            bad.append((t, args, to, case, crash_summary(rc, txt), True))
            continue
        ev["evals"] += res["evals"]
        for h in res["nontrivial"]:
            ev["nt"].add(t.name + h)
        for k, v in res["classes"].items():
            kk = t.name + ":" + k
            ev["classes"][kk] = ev["classes"].get(kk, 0) + v
        p = ev["per"].setdefault(t.name, dict(evaluations=0, distinct_nontrivial=0, workers=0, enumerated=0, rule=t.rule))
        p["evaluations"] += res["evals"]
        p["distinct_nontrivial"] += len(res["nontrivial"])
        p["workers"] += 1
        p["enumerated"] += res["enum_done"]
        if sum(1 for s in ev["samples"] if s.startswith(t.name + " ")) < 2:
            ev["samples"] += [t.name + " " + s for s in res["samples"][:2]]
        if res["violation"]:
            bad.append((t, args, to, res["violation"]["case"], res["violation"]["msg"], False))

    rdir = os.path.join(HERE, "replays")
    nviol, printed, flaky = 0, 0, 0
    for t, args, to, case, msg, crashed in bad[:4]:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.json" % (prop, t.name, len(os.listdir(rdir))))
        rec = dict(property=prop, target=t.name, case=case, msg=msg, seed=a.seed, tier=a.tier)
        confirmed = False
        if case is not None:
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            k, m = replay_n(prop, t, path, tmp)
            if k == 3:
                confirmed = True
                rec["msg"] = m
                if crashed and m.startswith("process died"):
                    rec = isolated(prop, t, args, tmp, path, rec) or rec
                with open(path, "w") as f:
                    json.dump(rec, f, indent=1)
        if not confirmed:
            # Depends on what ran before in the same process?  Re-run the worker.
            k, m = 0, None
            for i in range(3):
                res, rc, txt = spawn(prop, t, args, tmp, "re%d" % i, to)
                if res is not None and not res["violation"]:
                    break
                k += 1
                m = crash_summary(rc, txt) if res is None else res["violation"]["msg"]
            if k == 3:
                confirmed = True
                rec = dict(property=prop, target=t.name, case=None, last_case=case, worker_args=args, timeout=to, msg=m,
                           seed=a.seed, tier=a.tier)
                rec = isolated(prop, t, args, tmp, path, dict(property=prop, target=t.name, seed=a.seed, tier=a.tier)) or rec
                with open(path, "w") as f:
                    json.dump(rec, f, indent=1)
        if confirmed:
            nviol += 1
            print("%s/%s: %s" % (prop, t.name, rec["msg"]))
            print("case: %s" % json.dumps(rec["case"])[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            break
        else:
            flaky += 1
            print("note: a failure in %s did not reproduce and is not reported: %s" % (t.name, msg[:2000]))
            try:
                os.unlink(path)
            except OSError:
                pass

    extra = {}
    known = []
    if nviol == 0 and hasattr(mod, "known_findings"):
        for key, text, present in mod.known_findings():
            if present:
                known.append(text)
                print("KNOWN-FINDING: property=%s %s" % (prop, text))
    wall = time.monotonic() - t0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    level = getattr(mod, "LEVEL", "exploration")
    evd = dict(property=prop, tier=a.tier, seed=a.seed, level=level,
               coverage=dict(evaluations=ev["evals"], distinct_nontrivial=len(ev["nt"]),
                             rule="; ".join("%s: %s" % (t.name, t.rule) for t in targets),
                             samples=ev["samples"][:12] or ["(none completed)"],
                             targets=ev["per"], classes=ev["classes"], build_s=round(tbuild, 1),
                             unreproduced_failures=flaky),
               assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=nviol)
    if known:
        evd["coverage"]["known_findings"] = known
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs"
          % (prop, a.tier, a.seed, ev["evals"], len(ev["nt"]), nviol, wall))
    return 1 if nviol else 0


if __name__ == "__main__":
    main()
