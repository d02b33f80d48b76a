"""C35: messages, threads, processes and the small helpers keep their promises."""
import ctypes as C, errno, json, mmap, os, re, select, signal, struct, tempfile, threading, time
from hypothesis import strategies as st
from vf import build, core, gen, procs
from vf.core import Target, check

MAXLINE = 4095
_l = []


def lib():
    if not _l:
        l = C.CDLL(build.blocklib())
        P, I, S, Z, L = C.c_void_p, C.c_int, C.c_char_p, C.c_size_t, C.c_long
        lp, ip = C.POINTER(L), C.POINTER(I)
        for n, r, a in (("bk_write_tape", None, [I, P, Z]), ("bk_write_calls", Z, []), ("bk_write_pos", Z, []), ("bk_read_eintr", None, [I]), ("bk_slog", Z, [P, Z]), ("bk_msg", I, [I, I, I, S, L]),
                        ("bk_msg_threads", None, [I, I, P, P]), ("bk_live", L, []), ("bk_malloc_fail", None, [I]), ("bk_asprintf", I, [I, S, L, P, Z, ip]), ("bk_imalloc", I, [Z, I, ip]),
                        ("bk_align", L, [Z, Z]), ("bk_align_decl", Z, []), ("bk_enc", None, [I, I, P, C.c_uint64]), ("bk_dec", C.c_uint64, [I, I, P]), ("bk_clock", None, [I]), ("bk_clock_set", None, [I, I, L, L, L, L]),
                        ("bk_clock_get", I, [I, lp, lp, C.POINTER(C.c_double)]), ("bk_timeval_diff", C.c_double, [L] * 4), ("bk_millisleep", None, [Z, lp, lp]), ("bk_fork_err", None, [I]), ("bk_fork", I, [P, I, I]),
                        ("bk_buffer", I, [S, S]), ("bk_unbuffer", None, []), ("bk_thread", I, [I, I, I, I, P, Z, I, I, P]), ("noeintr_write", C.c_ssize_t, [I, P, Z]), ("fork_func_wait", I, [I]), ("ipc_sync_init", P, []),
                        ("ipc_sync_wait", I, [P]), ("ipc_sync_signal", I, [P]), ("ipc_sync_wait_prep", I, [P]), ("ipc_sync_signal_prep", I, [P]), ("ipc_sync_done", I, [P]),
                        ("warnp_setprogname", None, [S]), ("warnp_syslog", None, [I]), ("warnp_syslog_priority", None, [I]), ("bk_errno", None, [I])):
            f = getattr(l, n)
            f.restype, f.argtypes = r, a
        _l.append(l)
    return _l[0]


def strerror(e):
    return os.strerror(e).encode()


class Err:
    """What is written to standard error meanwhile."""

    def __enter__(self):
        self.f = tempfile.TemporaryFile()
        self.old = os.dup(2)
        os.dup2(self.f.fileno(), 2)
        return self

    def take(self):
        self.f.seek(0)
        b = self.f.read()
        self.f.seek(0)
        self.f.truncate()
        return b

    def __exit__(self, *a):
        os.dup2(self.old, 2)
        os.close(self.old)
        self.f.close()


# --- messages --------------------------------------------------------------------
ERRS = [0, errno.ENOENT, errno.EINTR, errno.EAGAIN, errno.ECONNRESET, errno.ENOMEM, errno.EPIPE, 133, 9999]
byte = st.characters(min_codepoint=1, max_codepoint=255)


def text(c):
    n, s = c
    s = s.encode("latin-1") or b"x"
    return (s * (n // len(s) + 1))[:n] if n else b""


mtext = st.tuples(st.one_of(st.integers(0, 40), st.integers(4000, 4200), st.integers(4090, 4100), st.integers(0, 9000)), st.text(byte, min_size=1, max_size=12))


def mstrat(tier):
    op = st.one_of(
        st.tuples(st.just("msg"), st.integers(0, 1), st.integers(0, 4), st.sampled_from(ERRS), mtext, st.one_of(st.integers(-10, 10), st.integers(-2**63, 2**63 - 1))),
        st.tuples(st.just("msg"), st.integers(0, 1), st.integers(0, 4), st.sampled_from(ERRS), mtext, st.integers(-10, 10)),
        st.tuples(st.just("name"), st.lists(st.text(st.characters(min_codepoint=1, max_codepoint=127).filter(lambda c: c != "/"), max_size=5), min_size=1, max_size=4).map("/".join)),
        st.tuples(st.just("syslog"), st.integers(0, 2)),
        st.tuples(st.just("pri"), st.integers(0, 7)))
    return st.fixed_dictionaries(dict(ops=st.lists(op, min_size=1, max_size=14)))


def mrun(case):
    return messages(case["ops"], b"first")


def unrun(case):
    return core.forked(lambda: messages(case["ops"], None), 30)


def messages(ops, first):
    l = lib()
    if first:
        l.warnp_setprogname(first)
    l.warnp_syslog(0)
    l.warnp_syslog_priority(4)
    l.bk_closelogs()
    name, slog, pri = first or b"(unknown)", False, 4
    buf = C.create_string_buffer(1 << 20)
    classes = set()
    closes = 0
    with Err() as e:
        for op in ops:
            k = op[0]
            if k == "name":
                p = op[1].encode("latin-1")
                l.warnp_setprogname(p)
                name = p.rsplit(b"/", 1)[-1]
                classes.add("program name" + (" from a path" if b"/" in p else ""))
            elif k == "syslog":
                closes += slog and not op[1]
                slog = bool(op[1])
                l.warnp_syslog(op[1])
            elif k == "pri":
                pri = op[1]
                l.warnp_syslog_priority(pri)
            else:
                _, x, form, en, t, d = op
                s = text(t)
                after = l.bk_msg(x, form, en, s, d)
                if form >= 3 and en == 0:
                    x = 1       # warnp() without an error says no more than warn0()
                keep = 0 if form >= 3 else en       # the macros clear it, so that it is not told again
                check(after == keep, "errno was %d before a message and is %d after it", en, after)
                if form == 0:
                    m = None
                elif form == 1:
                    m = s
                elif form == 2:
                    m = b"a %d b %s%%" % (d, s)
                elif form == 3:
                    m = b"%s is %5d" % (s, d)
                else:
                    m = b"plain"
                tail = b"" if x else strerror(en)
                got, logged = e.take(), C.string_at(buf, l.bk_slog(buf, 1 << 20))
                if not slog:
                    want = name + (b"" if m is None else b": " + m) + (b"" if x else b": " + tail) + b"\n"
                    check(not logged, "a message went to the system log, which is off")
                    check(got == want, "message %r was written as %r (%d bytes), want %r (%d)", op, got[-200:], len(got), want[-200:], len(want))
                    classes.add("to standard error")
                else:
                    check(not got, "a message went to standard error and the system log is on: %r", got[:200])
                    want = b"" if m is None else m[:MAXLINE]
                    if not x:
                        want = want + (b": " if m is not None else b"") + tail
                    recs = logged.split(b"\0")
                    check(len(recs) == 2 and not recs[1], "one message became %d in the system log", len(recs) - 1)
                    pr, body = recs[0].split(b":", 1)
                    check(int(pr) == pri, "priority %s in the system log, want %d", pr.decode(), pri)
                    check(body.rstrip(b"\n") == want.rstrip(b"\n") and body.count(b"\n") - want.count(b"\n") <= 1, "message %r was logged as %r (%d bytes), want %r (%d)", op, body[-200:], len(body), want[-200:], len(want))
                    classes.add("to the system log, cut" if m is not None and len(m) > MAXLINE else "to the system log")
    check(l.bk_closelogs() == closes, "the system log was not closed once each time it was switched off")
    return dict(nontrivial=len(classes) > 1, classes=sorted(classes))


def mtstrat(tier):
    return st.fixed_dictionaries(dict(n=st.integers(1, 60), thr=st.lists(st.tuples(st.sampled_from(ERRS[1:6]), st.one_of(st.integers(0, 50), st.integers(0, 6000), st.sampled_from([1000, 1023, 1024, 4096, 8192]))), min_size=2, max_size=8)))


def mtrun(case):
    l = lib()
    n, thr = case["n"], case["thr"]
    l.warnp_setprogname(b"x/prog")
    with Err() as e:
        l.bk_msg_threads(len(thr), n, (C.c_int * len(thr))(*[t[0] for t in thr]), (C.c_size_t * len(thr))(*[t[1] for t in thr]))
        got = e.take()
    want = {}
    for i, (en, ln) in enumerate(thr):
        want[i] = [b"prog: %d %d %s" % (i, k, bytes([97 + i]) * ln) + (b"" if k & 1 else b": " + strerror(en)) for k in range(n)]
    seen = {i: [] for i in want}
    lines = got.split(b"\n")
    check(lines.pop() == b"", "the last message of several threads has no end")
    for x in lines:
        m = re.match(rb"prog: (\d+) ", x)
        check(m is not None and int(m.group(1)) in seen, "several threads' messages are mixed: %r", x[:100])
        seen[int(m.group(1))].append(x)
    for i in want:
        check(seen[i] == want[i], "the messages of thread %d are not whole, once each and in order", i)
    return dict(nontrivial=n > 3, classes=["%d threads" % len(thr)])


# --- writing ---------------------------------------------------------------------
def wstrat(tier):
    r = st.one_of(st.integers(1, 10), st.integers(1, 5000), st.just(-errno.EINTR), st.just(-errno.EINTR), st.sampled_from([-errno.EAGAIN, -errno.EPIPE, -errno.EIO, -errno.ENOSPC, -errno.EBADF]))
    ok = st.one_of(st.integers(1, 10), st.integers(1, 5000), st.just(-errno.EINTR))
    return st.fixed_dictionaries(dict(n=st.one_of(st.integers(0, 20), st.integers(0, 40000)), tape=st.one_of(st.lists(ok, max_size=40), st.lists(r, max_size=12)), seed=st.integers(0, 1000)))


def wrun(case):
    l = lib()
    data = os.urandom(0) + bytes((i * 7 + case["seed"] + i // 256) & 255 for i in range(case["n"]))
    f = tempfile.TemporaryFile()
    tape = case["tape"]
    l.bk_write_tape(f.fileno(), (C.c_int * max(1, len(tape)))(*tape), len(tape))
    r = l.noeintr_write(f.fileno(), data, len(data))
    calls = l.bk_write_calls()
    l.bk_write_tape(-1, (C.c_int * 1)(), 0)
    f.seek(0)
    got = f.read()
    done, k, fail = 0, 0, None
    while done < len(data):
        t = tape[k] if k < len(tape) else len(data)
        k += 1
        if t == -errno.EINTR:
            continue
        if t < 0:
            fail = -t
            break
        done += min(t, len(data) - done)
    if fail:
        check(r == -1, "writing %d bytes returned %d after error %d", len(data), r, fail)
        check(got == data[:done], "%d bytes were written before the error, not the first %d", len(got), done)
    else:
        check(r == len(data), "writing %d bytes returned %d", len(data), r)
        check(got == data, "writing %d bytes produced %d bytes, or others", len(data), len(got))
    check(calls <= k + 1, "%d calls to write where %d are enough", calls, k)
    return dict(nontrivial=len(tape) > 1 and len(data) > 1, classes=["error" if fail else "complete"] + (["interrupted"] if -errno.EINTR in tape[:k] else []))


# --- one process waits for another -----------------------------------------------
def istrat(tier):
    return st.fixed_dictionaries(dict(
        waiter=st.sampled_from(["parent", "child"]), wprep=st.integers(0, 2), sprep=st.integers(0, 2),
        wdelay=st.sampled_from([0, 0, 1, 5, 20]), sdelay=st.sampled_from([0, 0, 1, 5, 20]), eintr=st.sampled_from([0, 0, 1, 3]),
        signaller=st.sampled_from(["signal", "signal", "signal", "signal twice", "dies", "done without signalling", "signals and dies", "signals, is done"]), again=st.booleans()))


def nfds():
    return sorted(os.listdir("/proc/self/fd"))


def irun(case):
    l = lib()
    before = nfds()
    live = l.bk_live()
    IS = l.ipc_sync_init()
    check(IS, "ipc_sync_init failed")
    sh = mmap.mmap(-1, 4096)

    def wait():
        for _ in range(case["wprep"]):
            check(l.ipc_sync_wait_prep(IS) == 0, "ipc_sync_wait_prep failed")
        time.sleep(case["wdelay"] / 1000)
        l.bk_read_eintr(case["eintr"])
        t = time.monotonic()
        rc = l.ipc_sync_wait(IS)
        flag = sh[0]
        l.bk_read_eintr(0)
        if "dies" == case["signaller"] or "done without" in case["signaller"]:
            check(rc == -1, "ipc_sync_wait returned %d and nobody signalled", rc)
        else:
            check(rc == 0, "ipc_sync_wait returned %d after a signal", rc)
            check(flag == 1, "ipc_sync_wait returned before the signal")
        if case["signaller"] == "signal twice":
            check(l.ipc_sync_wait(IS) == 0, "a second signal did not release a second wait")
        elif case["again"] and case["signaller"] in ("signals and dies", "signals, is done"):
            check(l.ipc_sync_wait(IS) == -1, "a second wait returned without a second signal")

    def sig():
        w = case["signaller"]
        for _ in range(case["sprep"]):
            check(l.ipc_sync_signal_prep(IS) == 0, "ipc_sync_signal_prep failed")
        time.sleep(case["sdelay"] / 1000)
        if w == "dies" or "done without" in w:
            return
        sh[0] = 1
        for _ in range(2 if w == "signal twice" else 1):
            check(l.ipc_sync_signal(IS) == 0, "ipc_sync_signal failed")

    def child(f):
        try:
            f()
            rc = 0
            if case["signaller"] != "dies" and case["signaller"] != "signals and dies" or f is wait:
                rc = 0 if l.ipc_sync_done(IS) == 0 else 3
            msg = ""
        except core.Violation as e:
            rc, msg = 2, str(e)
        os.write(wfd, msg.encode()[:2000])
        os._exit(rc)

    rfd, wfd = os.pipe()
    with Err():
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            child(sig if case["waiter"] == "parent" else wait)
        os.close(wfd)
        err = None
        try:
            if case["waiter"] == "parent":
                wait()
            else:
                sig()
        except core.Violation as e:
            err = e
        d = l.ipc_sync_done(IS)
        msg = os.read(rfd, 2000).decode()
        os.close(rfd)
        status = os.waitpid(pid, 0)[1]
    if err:
        raise err
    check(d == 0, "ipc_sync_done failed")
    check(status == 0, "in the other process: %s (status %#x)", msg, status)
    check(nfds() == before, "descriptors are left after ipc_sync_done: %r, before %r", nfds(), before)
    check(l.bk_live() == live, "memory is left after ipc_sync_done")
    return dict(nontrivial=True, classes=["the %s waits" % case["waiter"], case["signaller"], "signal first" if case["wdelay"] > case["sdelay"] else "wait first" if case["wdelay"] < case["sdelay"] else "together"])


# --- processes -------------------------------------------------------------------
def fstrat(tier):
    how = st.one_of(st.integers(0, 255), st.integers(0, 3), st.sampled_from([1000 + s for s in (1, 2, 6, 9, 10, 13, 14, 15)]))
    return st.fixed_dictionaries(dict(kids=st.lists(st.tuples(st.integers(0, 1000), how), min_size=1, max_size=4), order=st.permutations([0, 1, 2, 3]), fail=st.sampled_from([0, 0, 0, 0, errno.EAGAIN, errno.ENOMEM]),
                                      text=st.sampled_from(["", "buffered\n", "b" * 200])))


def frun(case):
    return core.forked(lambda: forks(case), 30)


def forks(case):
    l = lib()
    sh = mmap.mmap(-1, 4096)
    base = C.addressof(C.c_char.from_buffer(sh))
    ex = tempfile.NamedTemporaryFile()
    l.bk_buffer(ex.name.encode(), case["text"].encode())
    l.bk_errno(0)
    l.bk_fork_err(case["fail"])
    pids = []
    for i, (cookie, how) in enumerate(case["kids"]):
        with Err() as e:
            p = l.bk_fork(base + 4 * i, cookie, how)
            msg = e.take()
        if case["fail"]:
            check(p == -1, "fork_func returned %d although no process could be made", p)
            check(strerror(case["fail"]) in msg, "no message about the failing fork: %r", msg)
            l.bk_unbuffer()
            check(ex.read().decode() == case["text"], "text buffered by the parent was written more than once")
            return dict(nontrivial=True, classes=["fork fails"])
        check(p > 0, "fork_func returned %d", p)
        pids.append(p)
    for i in case["order"]:
        if i >= len(pids):
            continue
        cookie, how = case["kids"][i]
        with Err() as e:
            rc = l.fork_func_wait(pids[i])
            msg = e.take().decode()
        v = struct.unpack("i", sh[4 * i:4 * i + 4])[0]
        check(v == cookie, "the function ran %s", "not with its cookie" if v else "not at all")
        if how < 1000:
            check(rc == how, "exit code %d was reported as %d", how, rc)
            check(msg == "", "a message about a process which ended well: %r", msg)
        else:
            check(rc == -1, "a process ended by signal %d was reported as %d", how - 1000, rc)
            check(re.search(r"\b%d\b" % (how - 1000), msg) and str(pids[i]) in msg, "signal %d of process %d is not in the message %r", how - 1000, pids[i], msg)
    try:
        os.waitpid(-1, os.WNOHANG)
        check(False, "a process is left over")
    except ChildProcessError:
        pass
    l.bk_unbuffer()
    check(ex.read().decode() == case["text"], "text buffered by the parent was written more than once, or its exit handlers ran in the child")
    return dict(nontrivial=True, classes=sorted({"signal" if h >= 1000 else "exit code" for _, h in case["kids"]}))


# --- threads ---------------------------------------------------------------------
OPS = ["mutex_init", "cond_init", "mutex_lock", "create", "cond_wait", "mutex_unlock", "cond_destroy", "mutex_destroy"]


def tstrat(tier):
    us = st.sampled_from([0, 0, 0, 200, 1500, 5000])
    return st.fixed_dictionaries(dict(n=st.integers(1, 8), fail=st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 3), st.integers(0, 2), st.sampled_from([errno.EAGAIN, errno.ENOMEM, errno.EPERM, errno.EINVAL])),
                                                                          st.tuples(st.just(8), st.integers(0, 3), st.just(errno.ENOMEM))),
                                      d=st.tuples(us, us, us, us, us, us, st.integers(0, 3), st.integers(0, 1)), stack=st.sampled_from([0, 0, 1 << 18, 1 << 24, 1 << 25]), detach=st.sampled_from([0, 0, 0, 1])))


def tenum(tier):
    for op in (0, 1, 2, 3, 8):
        for num in (0, 1):
            for err in (errno.EAGAIN, errno.EINVAL) if op != 8 else (errno.ENOMEM,):
                yield dict(n=2, fail=[op, num, err], d=[0, 0, 0, 0, 0, 0, 0, 0], stack=0, detach=0)
    for i in range(6):
        for d in (1500, 10000):
            yield dict(n=2, fail=None, d=[d if j == i else 0 for j in range(6)] + [i & 1, 0], stack=0, detach=0)


def trun(case):
    l = lib()
    r = (C.c_long * 8)()
    op, num, err = case["fail"] or (-1, 0, 0)
    mf = -1
    if op == 8:
        op, mf = -1, num
    l.bk_thread(case["n"], op, num, err, (C.c_int * 8)(*case["d"]), case["stack"], case["detach"], mf, r)
    rc, early, ran, live, ok, stack, det, made = r[:]
    classes = []
    failed = bool(case["fail"]) and num < case["n"]
    if failed:
        check(rc == err, "%s failed with error %d for thread %d and %d was returned", (OPS + ["malloc"])[case["fail"][0]], err, num, rc)
        check(made == num, "%d threads were made before the failure for number %d", made, num)
        classes.append((OPS + ["malloc"])[case["fail"][0]] + " fails")
    else:
        check(rc == 0 and made == case["n"], "creating thread %d returned %d", made, rc)
    check(early == 0, "%d calls returned before the thread had started", early)
    check(ran == made, "%d threads were made and the function ran %d times", made, ran)
    check(case["detach"] or ok == made, "%d of %d threads were given their argument and returned their value", ok, made)
    check(live == 0, "%d blocks of memory are left", live)
    if made:
        check(not case["stack"] or stack >= case["stack"], "the thread has a stack of %d bytes, not %d as its attributes say", stack, case["stack"])
        check(det == case["detach"], "the thread's detach state is not that of its attributes")
    return dict(nontrivial=True, classes=classes or ["threads run"])


# --- memory, numbers in memory, clocks -------------------------------------------
E19 = {errno.ENOSYS, errno.EINVAL}


def hstrat(tier):
    t = st.tuples(st.sampled_from([0, 0, 0, errno.EINVAL, errno.ENOSYS, errno.EPERM, errno.EFAULT]), st.integers(0, 2**40), st.one_of(st.integers(0, 999999999), st.sampled_from([0, 999, 1000, 999999999])), st.sampled_from([0, 0, 1]), st.integers(0, 999999999))
    return st.one_of(
        st.fixed_dictionaries(dict(k=st.just("asprintf"), form=st.integers(0, 3), t=mtext, d=st.integers(-2**63, 2**63 - 1), fail=st.sampled_from([-1, -1, 0, 1]))),
        st.fixed_dictionaries(dict(k=st.just("imalloc"), which=st.integers(0, 2), n=st.one_of(st.integers(0, 3000), st.sampled_from([2**64 // 24, 2**64 // 24 + 1, 2**61, 2**61 + 1, 2**61 + 7, 2**64 // 24 + 2, 2**63, 2**64 - 1])), fail=st.sampled_from([-1, -1, 0]))),
        st.fixed_dictionaries(dict(k=st.just("align"), skew=st.integers(0, 8000), al=st.one_of(st.integers(0, 12).map(lambda x: 1 << x), st.integers(1, 4096)))),
        st.fixed_dictionaries(dict(k=st.just("endian"), w=st.sampled_from([2, 4, 8]), big=st.integers(0, 1), x=st.one_of(st.integers(0, 2**64 - 1), st.integers(0, 63).map(lambda b: 1 << b), st.integers(0, 7).map(lambda b: 0xff << 8 * b)), off=st.integers(0, 15))),
        st.fixed_dictionaries(dict(k=st.just("clock"), mono=t, real=t, cpu=t, d=st.tuples(*[st.integers(0, 2**31)] * 2, *[st.integers(0, 999999)] * 2), ms=st.one_of(st.integers(0, 5000), st.integers(0, 10**9)))))


def hrun(case):
    l = lib()
    k = case["k"]
    if k == "asprintf":
        s, d = text(case["t"]), case["d"]
        buf = C.create_string_buffer(b"\xee" * 40000, 40000)
        n = C.c_int()
        live = l.bk_live()
        l.bk_malloc_fail(case["fail"])
        ok = l.bk_asprintf(case["form"], s, d, buf, 40000, C.byref(n))
        l.bk_malloc_fail(-1)
        check(l.bk_live() == live, "memory is left")
        want = [s, b"[%s]:%d" % (s, d), b"%s|%d|%s" % (s[:d & 63], d, s), b"none"][case["form"]]
        if case["fail"] == 0:
            check(n.value == -1, "asprintf returned %d without memory", n.value)
        else:
            check(ok == 1 and n.value == len(want), "asprintf returned %d for %d characters", n.value, len(want))
            check(buf.raw[:len(want) + 1] == want + b"\0", "asprintf made %r, want %r", buf.raw[:len(want) + 1][:100], want[:100])
        return dict(nontrivial=len(s) > 0, classes=["asprintf"])
    if k == "imalloc":
        size = [24, 8, 1][case["which"]]
        n = case["n"]
        null = C.c_int()
        live = l.bk_live()
        if n * size > 1 << 20 and n * size < 1 << 64:
            l.bk_malloc_fail(0)     # as much as that is not to be had
        else:
            l.bk_malloc_fail(case["fail"])
        r = l.bk_imalloc(n, case["which"], C.byref(null))
        l.bk_malloc_fail(-1)
        fail = n > 0 and (n * size > 1 << 20 or case["fail"] == 0)
        check((r == errno.ENOMEM) if fail else r == 0, "allocating %d records of %d bytes returned %d", n, size, r)
        check(bool(null.value) == (fail or n == 0), "allocating %d records of %d bytes set a %s pointer", n, size, "null" if null.value else "non-null")
        check(l.bk_live() == live, "memory is left")
        return dict(nontrivial=n > 0, classes=["imalloc, too much" if n * size >= 1 << 64 else "imalloc"])
    if k == "align":
        off = l.bk_align(case["skew"], case["al"])
        al = case["al"]
        if 8192 % al == 0:
            check(off == -case["skew"] % al, "address %d aligned to %d moved by %d", case["skew"], al, off)
        else:
            check(0 <= off < al, "an address aligned to %d moved by %d", al, off)
        check(l.bk_align_decl() == 0, "an aligned array is not aligned")
        return dict(nontrivial=al > 1, classes=["align"])
    if k == "endian":
        w, x, off = case["w"], case["x"] & ((1 << 8 * case["w"]) - 1), case["off"]
        order = "big" if case["big"] else "little"
        b = C.create_string_buffer(b"\xa5" * 32, 32)
        p = C.addressof(b) + off
        l.bk_enc(w, case["big"], p, x)
        want = b"\xa5" * off + x.to_bytes(w, order) + b"\xa5" * (32 - off - w)
        check(b.raw == want, "%#x encoded %s-endian in %d bytes is %s", x, order, w, b.raw[off:off + w].hex())
        got = l.bk_dec(w, case["big"], p)
        check(got == x, "%s decoded %s-endian is %#x", b.raw[off:off + w].hex(), order, got)
        return dict(nontrivial=x > 0, classes=["endian"])
    # Clocks: 0 real time, 1 monotonic, 2 processor time.
    s, us, res = C.c_long(), C.c_long(), C.c_double(-1)
    for c, v in ((0, case["real"]), (1, case["mono"]), (2, case["cpu"])):
        l.bk_clock_set(c, *v)
    classes = set()
    for what, chain in ((0, ("mono", "real")), (1, ("cpu", "mono", "real")), (2, ("mono", "real"))):
        with Err() as e:
            l.bk_clock(1)
            r = l.bk_clock_get(what, C.byref(s), C.byref(us), C.byref(res))
            l.bk_clock(0)
            msg = e.take()
        want = None
        for c in chain:
            if case[c][0] == 0:
                want = case[c]
                classes.add("clock: " + c)
                break
            if case[c][0] not in E19:
                break
        if want is None:
            check(r == -1, "no clock can be read and %d was returned", r)
            check(msg, "no message about the failing clock")
            classes.add("clock fails")
        elif what < 2:
            check(r == 0 and (s.value, us.value) == (want[1], want[2] // 1000), "clock %r was read as %d s %d us (%d)", want, s.value, us.value, r)
        else:
            check(r == 0 and abs(res.value - (want[3] + want[4] * 1e-9)) < 1e-12, "resolution %r was read as %r", want[3:], res.value)
    a, b, c, d = case["d"]
    v = l.bk_timeval_diff(a, c, b, d)
    check(abs(v - ((b - a) + (d - c) * 1e-6)) < 1e-5, "from %d.%06d to %d.%06d is %r", a, c, b, d, v)
    l.bk_millisleep(case["ms"], C.byref(s), C.byref(us))
    check(s.value * 10**9 + us.value == case["ms"] * 10**6 and us.value < 10**9, "sleeping %d ms asked for %d s %d ns", case["ms"], s.value, us.value)
    return dict(nontrivial=True, classes=sorted(classes))


BINS = ("blocks",)
TARGETS = [
    Target("messages", mstrat, mrun, "messages went out in two ways, or under a given name", (1, 400, 6), (3, 6000, 60)),
    Target("unnamed", mstrat, unrun, "messages went out in two ways, or under a given name", (1, 60, 4), (1, 1000, 60)),
    Target("threads-write", mtstrat, mtrun, "more than three messages by several threads at once", (1, 60, 5), (2, 1500, 60)),
    Target("write", wstrat, wrun, "more than one call was scripted", (1, 800, 4), (2, 20000, 60)),
    Target("ipc", istrat, irun, "every case", (1, 150, 7), (3, 4000, 60), case_timeout=8),
    Target("fork", fstrat, frun, "every case", (1, 150, 6), (2, 3000, 60)),
    Target("thread", tstrat, trun, "every case", (1, 150, 7), (3, 4000, 60), case_timeout=8, enum=tenum),
    Target("helpers", hstrat, hrun, "the value is not the trivial one", (1, 1500, 5), (2, 30000, 60)),
]
