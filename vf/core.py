"""Shared pieces: targets, violations, per-worker execution."""
import hashlib, json, os


class Violation(Exception):
    """The property is broken by the case being run."""


class Stop(KeyboardInterrupt):
    """Time budget used up (not a failure)."""


class Target:
    """One generator + oracle pair.

    strategy(tier) -> Hypothesis strategy producing JSON-able cases
    run(case)      -> dict(nontrivial=bool, classes=[...]) ; raises Violation
    lib            -> 'sim' / 'soft' / None: library the worker loads (ASan)
    quick/thorough -> (workers, examples per worker, seconds per worker)
    enum(tier)     -> optional iterable of fixed cases run before generation
                      (an exhaustively enumerated part of the domain)
    """

    def __init__(self, name, strategy, run, rule, quick, thorough, lib="sim", case_timeout=30, enum=None,
                 sequential=False, setup=None):
        self.name, self.strategy, self.run, self.rule = name, strategy, run, rule
        self.quick, self.thorough, self.lib = quick, thorough, lib
        self.case_timeout, self.enum, self.sequential, self.setup = case_timeout, enum, sequential, setup


def case_json(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_hash(js):
    return hashlib.blake2b(js.encode(), digest_size=8).digest()


def tuples_to_lists(x):
    """What a case looks like after a round trip through a replay file."""
    return json.loads(json.dumps(x))


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def forked(fn, secs=25):
    """Run fn() in a child process: a crash there becomes a Violation here."""
    import signal, tempfile, traceback
    r, w = os.pipe()
    err = tempfile.TemporaryFile()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.dup2(err.fileno(), 2)
        try:
            signal.alarm(secs)
            out = {"r": fn()}
        except Violation as e:
            out = {"v": str(e)}
        except BaseException:
            out = {"v": "unexpected exception: " + traceback.format_exc()[-2000:]}
        os.write(w, json.dumps(out).encode())
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if data:
        o = json.loads(data)
        if "v" in o:
            raise Violation(o["v"])
        return o["r"]
    err.seek(0)
    txt = err.read().decode(errors="replace")
    what = [l for l in txt.splitlines() if "SUMMARY" in l or "runtime error" in l or "Assertion" in l]
    fr = [l.strip() for l in txt.splitlines() if l.strip().startswith("#") and (".c:" in l)][:6]
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
        raise Violation("no answer within %d seconds" % secs)
    raise Violation("the process crashed (status %#x): %s %s" % (st, "; ".join(what[:2]), " | ".join(fr)))
