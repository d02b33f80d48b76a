"""C37: threads share nothing unsynchronised (ThreadSanitizer as the oracle, generated histories)."""
import glob, os, re, select, signal, socket, struct, subprocess, tempfile, threading, time
from hypothesis import strategies as st
from vf import build, core, gen, procs, wirepeer, world
from vf.core import Target, check, Violation

BINS = ("tsan",)
WAIT = 10 * procs.SCALE
OPTS = "exitcode=66:halt_on_error=0:second_deadlock_stack=1:history_size=4:atexit_sleep_ms=0:report_thread_leaks=%d"


def works():
    """ThreadSanitizer starts here (it needs a memory layout some kernels do not give)."""
    r = subprocess.run([os.path.join(build.tsanbins(), "tsandns"), "1", "0"], capture_output=True)
    return r.returncode == 0


_pre = []


def prefix():
    if not _pre:
        _pre.append([] if works() else ["setarch", "-R"])
    return _pre[0]


def summary(txt):
    """The report, without addresses: kind and frames."""
    w = re.findall(r"WARNING: ThreadSanitizer: ([^(\n]*)", txt)
    fr = re.findall(r"#\d+ (\S+) \S*?([^/\s]+\.c:\d+)", txt)
    return "ThreadSanitizer: %s; %s" % (", ".join(sorted(set(x.strip() for x in w))), " < ".join("%s %s" % f for f in fr[:6]))


def clean(txt, code, what):
    check("ThreadSanitizer" not in txt and code != 66, "%s: %s", what, summary(txt) if "ThreadSanitizer" in txt else "exit code 66: " + txt[-500:])


# --- resolver threads ------------------------------------------------------------
def dns_strat(tier):
    n = st.integers(0, 2)
    op = st.one_of(st.tuples(st.just("s"), n), st.tuples(st.sampled_from("rrb"), n), st.tuples(st.sampled_from("rrb"), n), st.tuples(st.just("k"), n), st.tuples(st.just("o"), st.integers(0, 1)),
                   st.tuples(st.just("l"), st.sampled_from([0, 1, 3, 30])), st.just(("l", 20000)))
    return st.fixed_dictionaries(dict(ops=st.lists(op, min_size=1, max_size=14 if tier == "quick" else 40), delay=st.sampled_from([0, 50, 300, 2000]), tail=st.sampled_from(["kill", "kill", "kill", "busy"]), seed=gen.seed))


def dns_enum(tier):
    S = [("s", 0)]
    for seed in range(3):
        for d in (0, 300):
            b = dict(delay=d, tail="kill", seed=seed)
            yield dict(b, ops=S)
            yield dict(b, ops=S + [("r", 0), ("l", 20000)])
            yield dict(b, ops=S + [("b", 0), ("r", 0), ("l", 20000), ("r", 0), ("l", 20000)])
            yield dict(b, ops=[("o", 0), ("o", 1), ("l", 20000), ("o", 0), ("l", 20000)])
            yield dict(b, ops=S + [("r", 0)], tail="busy")
            yield dict(b, ops=S + [("s", 1), ("r", 0), ("r", 1), ("l", 1), ("r", 0), ("b", 1), ("l", 20000), ("k", 0), ("s", 0), ("b", 0)])


def script(case):
    """The operations made legal: a request needs a living thread; a thread is killed when it has nothing to do
    (the event loop is run first), except at the very end."""
    out, alive, pend = [], set(), set()
    for o, n in core.tuples_to_lists(case["ops"]):
        if o == "s":
            if n in alive:
                continue
            alive.add(n)
        elif o in "rb":
            if n not in alive:
                out.append("s%d" % n)
                alive.add(n)
            pend.add(n)
        elif o == "k":
            if n not in alive:
                continue
            if n in pend:
                out.append("l60000")
                pend.clear()
            alive.discard(n)
        elif o == "l" and n >= 20000:
            pend.clear()
            n = 60000
        out.append("%s%d" % (o, n))
    busy = case["tail"] == "busy"
    if not busy:
        out.append("l60000")
    out += ["k%d" % n for n in sorted(alive)]
    return out, busy


def dns_run(case):
    ops, busy = script(case)
    env = dict(procs.child_env(), TSAN_OPTIONS=OPTS % (0 if busy else 1))
    try:
        r = subprocess.run([*prefix(), os.path.join(build.tsanbins(), "tsandns"), str(case["seed"] % 2**31), str(case["delay"]), *ops], capture_output=True, env=env, timeout=100, preexec_fn=None)
    except subprocess.TimeoutExpired:
        raise Violation("resolver threads: no end within 100 seconds: %s" % " ".join(ops))
    err = r.stderr.decode(errors="replace")
    clean(err, r.returncode, "resolver threads, " + " ".join(ops))
    check(r.returncode == 0, "resolver threads, %s: status %d: %s", " ".join(ops), r.returncode, err[-400:])
    a, b, c, d = map(int, re.findall(rb"\d+", r.stdout))
    check(busy or (a == c and d == 0), "resolver threads, %s: %d requests, %d answers", " ".join(ops), a, c)
    return dict(nontrivial=a > 0, classes=["answers:%s" % ("0" if c == 0 else "1" if c == 1 else "2+"), "refused as busy" if b else "none refused", "busy at exit" if busy and d else "idle at exit"])


# --- real programs ---------------------------------------------------------------
class Box(procs.Scratch):
    def run(self, prog, args, **kw):
        return self.spawn(["env", "TSAN_OPTIONS=" + OPTS % 0 + ":log_path=" + self.path("race"), *prefix(), os.path.join(build.tsanbins(), prog, prog), *args], **kw)

    def races(self):
        t = ""
        for f in sorted(glob.glob(self.path("race*"))):
            with open(f, errors="replace") as fh:
                t += fh.read()
        return t

    def finish(self, p, what, secs=WAIT):
        try:
            rc = p.wait(secs)
        except subprocess.TimeoutExpired:
            raise Violation("%s: the program does not end: %s" % (what, self.err(p)))
        clean(self.races() + self.err(p), rc, what)
        return rc


def spipe_strat(tier):
    n = st.sampled_from([0, 1, 100, 1024, 1025, 5000, 70000])
    return st.fixed_dictionaries(dict(up=st.lists(n, max_size=4), down=st.lists(n, max_size=4), end=st.sampled_from(["user first", "peer first", "reset", "reader gone", "term", "bad packet"]),
                                      pfs=st.booleans(), jitter=st.sampled_from([0, 0, 1, 5]), keepalive=st.booleans(), seed=gen.seed))


def spipe_enum(tier):
    for e in ("user first", "peer first", "reset", "reader gone", "term", "bad packet"):
        yield dict(up=[1025, 1], down=[5000], end=e, pfs=True, jitter=0, keepalive=True, seed=1)


def spipe_run(case):
    key = b"tsan key"
    with Box() as sc:
        l = socket.socket()
        sc.socks.append(l)
        l.bind(("127.0.0.1", 0))
        l.listen(4)
        kf = sc.write("key", key)
        args = ["-t", "[127.0.0.1]:%d" % l.getsockname()[1], "-k", kf]
        if not case["pfs"]:
            args.append("-f")
        if not case["keepalive"]:
            args.append("-j")
        p = sc.run("spipe", args, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        r, _, _ = select.select([l], [], [], WAIT)
        check(r, "spipe does not connect: %s", sc.err(p) + sc.races())
        s, _ = l.accept()
        sc.socks.append(s)
        srv = wirepeer.Server(s, key, case["pfs"])
        srv.start()
        up = [world.pattern("up%d" % i, 0, n) for i, n in enumerate(case["up"])]
        down = [world.pattern("dn%d" % i, 0, n) for i, n in enumerate(case["down"])]
        nap = lambda: time.sleep(case["jitter"] / 1000) if case["jitter"] else None

        def feed():
            try:
                for b in up:
                    p.stdin.write(b)
                    p.stdin.flush()
                    nap()
            except (OSError, ValueError):
                pass

        def send():
            try:
                for b in down:
                    for i in range(0, len(b), 1024):
                        srv.send(b[i:i + 1024])
                    nap()
            except OSError:
                pass
        ts = [threading.Thread(target=f, daemon=True) for f in (feed, send)]
        for t in ts:
            t.start()
        end = case["end"]
        total = sum(map(len, down))
        if end in ("user first", "peer first"):
            got = procs.recv_all_fd(p.stdout, total)
            for t in ts:
                t.join(WAIT)
            check(got == b"".join(down), "spipe delivered %d bytes which are not the %d sent", len(got), total)
            if end == "user first":
                p.stdin.close()
                procs.wait_for(lambda: srv.end, what="spipe to pass on the end of its input")
                s.shutdown(socket.SHUT_WR)
            else:
                s.shutdown(socket.SHUT_WR)
                time.sleep(0.01)
                p.stdin.close()
                check(p.stdout.read() == b"", "spipe delivered more than was sent")
            rc = sc.finish(p, "spipe, " + end)
            check(rc == 0, "spipe, %s: status %s: %s", end, rc, sc.err(p))
            srv.thread.join(WAIT)
            check(bytes(srv.got) == b"".join(up) and not srv.bad, "the peer received %d bytes which are not the %d sent (%s)", len(srv.got), sum(map(len, up)), srv.bad)
        else:
            # Nobody promises what arrives; the program ends without a race.
            if end == "reset":
                ts[1].join(WAIT) if total < 20000 else None
                srv.reset()
            elif end == "reader gone":
                p.stdout.close()
                for t in ts:
                    t.join(1)
                try:
                    srv.send(b"x" * 1000)
                    time.sleep(0.02)
                    srv.send(b"x" * 1000)
                    s.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
            elif end == "term":
                nap()
                p.send_signal(signal.SIGTERM)
            else:
                try:
                    ts[1].join(0.2)
                    s.sendall(b"\0" * 1060)
                except OSError:
                    pass
            t = threading.Thread(target=lambda: drain(p.stdout), daemon=True)
            t.start()
            ts[0].join(0.2)
            try:
                p.wait(0.3)
            except subprocess.TimeoutExpired:
                pass
            close(p.stdin)
            sc.finish(p, "spipe, " + end)
        return dict(nontrivial=bool(up or down), classes=["ending:" + end, "up:%s" % bool(sum(case["up"])), "down:%s" % bool(total)])


def drain(f):
    try:
        while not f.closed and os.read(f.fileno(), 65536):
            pass
    except (OSError, ValueError):
        pass


def close(f):
    # Without the lock of the buffered writer: a blocked writer may hold it.
    try:
        os.close(os.dup(f.fileno()))
        f.raw.close()
    except (OSError, ValueError, AttributeError):
        pass


def spiped_strat(tier):
    step = st.sampled_from(["connect", "connect", "exchange", "close", "nap", "reset"])
    return st.fixed_dictionaries(dict(r=st.sampled_from(["0.001", "0.003", "0.02", "1"]), steps=st.lists(step, max_size=8 if tier == "quick" else 20),
                                      host=st.sampled_from(["localhost:%d", "localhost:%d", "[127.0.0.1]:%d"]), seed=gen.seed))


def listening(addr):
    with open("/proc/net/unix") as f:
        return any(l.rstrip().endswith(" " + addr) and " 00010000 " in l for l in f)


def spiped_run(case):
    with Box() as sc:
        back = socket.socket()
        sc.socks.append(back)
        back.bind(("127.0.0.1", 0))
        back.listen(64)
        kf = sc.write("key", b"tsan key")
        hostp = case["host"] % back.getsockname()[1]
        a, b = sc.path("a"), sc.path("b")
        # The client side connects to a UNIX socket; the server side's target is looked up again and again.
        d = sc.run("spiped", ["-F", "-d", "-s", b, "-t", hostp, "-k", kf, "-r", case["r"]])
        e = sc.run("spiped", ["-F", "-e", "-s", a, "-t", b, "-k", kf])
        up = lambda: listening(a) and listening(b)
        procs.wait_for(lambda: up() or d.poll() is not None or e.poll() is not None, what="the daemons to start")
        check(d.poll() is None and e.poll() is None, "a daemon ended at the start: %s", sc.races() + sc.err(d) + sc.err(e))
        conns = []

        def connect():
            u = socket.socket(socket.AF_UNIX)
            sc.socks.append(u)
            u.settimeout(WAIT)
            u.connect(a)
            r, _, _ = select.select([back], [], [], WAIT)
            check(r, "a connection does not arrive: %s", sc.races() + sc.err(d) + sc.err(e))
            x, _ = back.accept()
            sc.socks.append(x)
            x.settimeout(WAIT)
            conns.append((u, x))

        def finish(u, x):
            u.shutdown(socket.SHUT_WR)
            check(procs.recv_all(x)[0] == b"", "data from nowhere")
            x.shutdown(socket.SHUT_WR)
            check(procs.recv_all(u)[0] == b"", "data from nowhere")
        # The programs are up when they have served a connection (a signal before would simply end them).
        connect()
        finish(*conns.pop())
        for s in case["steps"]:
            if s == "connect" and len(conns) < 5:
                connect()
            elif s == "exchange" and conns:
                u, x = conns[-1]
                for f, t, tag in ((u, x, "u"), (x, u, "x")):
                    m = world.pattern(tag, 0, 3000)
                    f.sendall(m)
                    check(procs.recv_all(t, 3000)[0] == m, "the data arrive changed")
            elif s == "close" and conns:
                finish(*conns.pop(0))
            elif s == "reset" and conns:
                u, x = conns.pop(0)
                x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                x.close()
                u.close()
            elif s == "nap":
                time.sleep(0.01)
        for p in (d, e):
            p.send_signal(signal.SIGTERM)
        # A daemon told to end waits for its connections.
        while conns:
            finish(*conns.pop())
        for p, n in ((e, "client side"), (d, "server side")):
            rc = sc.finish(p, "spiped, " + n)
            check(rc == 0, "spiped, %s: status %s: %s", n, rc, sc.err(p))
        return dict(nontrivial=case["host"].startswith("l"), classes=["refresh:" + case["r"], "name" if case["host"].startswith("l") else "address"])


TARGETS = [
    Target("dns", dns_strat, dns_run, "at least one name looked up by a thread", (3, 60, 9), (6, 4000, 300), lib=None, case_timeout=130, enum=dns_enum),
    Target("spipe", spipe_strat, spipe_run, "data carried in at least one direction", (3, 40, 9), (5, 2000, 300), lib=None, case_timeout=130, enum=spipe_enum),
    Target("spiped", spiped_strat, spiped_run, "the target is a name which is looked up again", (2, 30, 9), (5, 2000, 300), lib=None, case_timeout=200),
]
