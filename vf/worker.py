"""Runs one target: generation + oracle (or the replay of one case).

Exit status: 0 = done (see --out for what was found); anything else means the
process died, which run.py treats as a crash of the code under test.
"""
import argparse, collections, faulthandler, importlib, json, os, random, signal, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(5000)

from vf import core  # noqa: E402


def watchdog(secs):
    """Die with a traceback after secs.  A timer, not a thread: threads and fork() do not mix under ASan."""
    signal.setitimer(signal.ITIMER_REAL, secs)


def short(js, n=700):
    return js if len(js) <= n else js[:n] + "...(%d chars)" % len(js)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("target")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--index", type=int, default=0)
    ap.add_argument("--nworkers", type=int, default=1)
    ap.add_argument("--examples", type=int, default=100)
    ap.add_argument("--budget", type=float, default=30)
    ap.add_argument("--shrink", type=float, default=40)
    ap.add_argument("--out")
    ap.add_argument("--cur")
    ap.add_argument("--fork", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()

    faulthandler.register(signal.SIGALRM, all_threads=True, chain=True)
    mod = importlib.import_module("props." + a.prop.lower())
    tgt = {t.name: t for t in mod.TARGETS}[a.target]
    if tgt.lib:
        signal.signal(signal.SIGPIPE, signal.SIG_DFL)   # as in the daemon; virtual sockets never raise it
    if tgt.setup:
        tgt.setup()

    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)["case"]
        watchdog(tgt.case_timeout * 2)
        try:
            tgt.run(case)
            res = {"violation": None}
        except core.Violation as e:
            res = {"violation": {"msg": str(e)}}
        except Exception:
            res = {"violation": {"msg": "unexpected exception in the check: " + traceback.format_exc()[-3000:]}}
        with open(a.out, "w") as f:
            json.dump(res, f)
        os._exit(0)

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, seed, settings

    t0 = time.monotonic()
    st = dict(evals=0, classes=collections.Counter(), samples=[], best=None, failed_at=None)
    seen = set()
    curfd = os.open(a.cur, os.O_RDWR | os.O_CREAT, 0o600) if a.cur else -1

    def run_one(case):
        if not a.fork:
            return tgt.run(case)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
            out = {}
            try:
                watchdog(tgt.case_timeout)
                tgt.run(case)
                out = {"ok": 1}
            except core.Violation as e:
                out = {"v": str(e)}
            except BaseException:
                out = {"v": "unexpected exception: " + traceback.format_exc()[-2000:]}
            os.write(w, json.dumps(out).encode())
            os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        if not data:
            raise core.Violation("the process died while running this case")
        o = json.loads(data)
        if "v" in o:
            raise core.Violation(o["v"])
        return {}

    def body(case):
        now = time.monotonic()
        if st["failed_at"] is not None:
            if now - st["failed_at"] > a.shrink:
                raise core.Stop()
        elif now - t0 > a.budget:
            raise core.Stop()
        js = core.case_json(case)
        if curfd >= 0:
            b = js.encode()
            os.pwrite(curfd, b, 0)
            os.ftruncate(curfd, len(b))
        case = json.loads(js)
        watchdog(tgt.case_timeout + (10 if a.fork else 0))
        try:
            info = run_one(case) or {}
        except core.Violation as e:
            if st["failed_at"] is None:
                st["failed_at"] = time.monotonic()
            if st["best"] is None or len(js) <= len(st["best"][0]):
                st["best"] = (js, str(e))
            raise
        except Exception:
            if st["failed_at"] is None:
                st["failed_at"] = time.monotonic()
            msg = "unexpected exception in the check: " + traceback.format_exc()[-3000:]
            if st["best"] is None or len(js) <= len(st["best"][0]):
                st["best"] = (js, msg)
            raise
        finally:
            watchdog(0)
        if st["failed_at"] is None:
            st["evals"] += info.get("evals", 1)
            for c in info.get("classes", ()):
                st["classes"][c] += 1
            if info.get("nontrivial", False):
                h = core.case_hash(js)
                if h not in seen:
                    seen.add(h)
                    n = len(seen)
                    if n in (1, 10, 100) and len(st["samples"]) < 3:
                        st["samples"].append(short(js))

    enum_total = enum_done = 0
    try:
        if tgt.enum is not None:
            cases = list(tgt.enum(a.tier))
            enum_total = len(cases)
            for i, c in enumerate(cases):
                if i % a.nworkers != a.index:
                    continue
                body(c)
                enum_done += 1
        if tgt.strategy is not None and a.examples > 0:
            @seed(a.seed * 1000003 + a.index * 7919 + 17)
            @settings(max_examples=a.examples, database=None, deadline=None, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                      print_blob=False, verbosity=hypothesis.Verbosity.quiet)
            @given(tgt.strategy(a.tier))
            def test(case):
                body(case)
            test()
    except core.Stop:
        pass
    except BaseException as e:
        if st["best"] is None:
            if isinstance(e, (hypothesis.errors.HypothesisException,)):
                print("harness error:", repr(e), file=sys.stderr)
            traceback.print_exc()
            os._exit(70)
    res = dict(evals=st["evals"], nontrivial=[h.hex() for h in seen], classes=dict(st["classes"]),
               samples=st["samples"], enum_total=enum_total, enum_done=enum_done,
               wall=time.monotonic() - t0, violation=None)
    if st["best"] is not None:
        res["violation"] = dict(case=json.loads(st["best"][0]), msg=st["best"][1])
    with open(a.out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(a.out + ".tmp", a.out)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
