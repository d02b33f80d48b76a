"""C17: network_read and network_write: counts, data, EOF, errors, cancellation."""
import ctypes as C
from hypothesis import strategies as st
from vf import gen, sim, world
from vf.core import Target, Violation, check

GUARD = 16
sz = st.one_of(st.integers(1, 12), st.integers(1, 3000), st.sampled_from([1, 1060, 4096, 65536]))
so = st.integers(0, 2)
ERRS = [104, 110, 113, 5, 32]


def strat(tier):
    part = st.one_of(st.just(0), st.just(1), st.just(1000), st.integers(0, 1000))   # minread as a fraction of buflen
    then = st.sampled_from(["", "", "again", "again", "twice", "cancel-other", "write", "read", "stop"])
    op = st.one_of(
        st.tuples(st.just("read"), so, sz, part, then), st.tuples(st.just("write"), so, sz, part, then),
        st.tuples(st.just("read"), so, sz, part, then), st.tuples(st.just("write"), so, sz, part, then),
        st.tuples(st.just("feed"), so, sz), st.tuples(st.just("feed"), so, sz), st.tuples(st.just("take"), so, sz),
        st.tuples(st.just("eof"), so), st.tuples(st.just("rxerr"), so, st.sampled_from(ERRS), st.booleans()),
        st.tuples(st.just("txerr"), so, st.sampled_from(ERRS)), st.tuples(st.just("cap"), so, st.sampled_from([0, 1, 5, 100, 1000, 100000])),
        st.tuples(st.just("cancelr"), so), st.tuples(st.just("cancelw"), so), st.tuples(st.just("hup"), so), st.tuples(st.just("failr"), so, sz), st.tuples(st.just("failw"), so, sz),
        st.tuples(st.just("run")), st.tuples(st.just("run")), st.tuples(st.just("step")))
    return st.fixed_dictionaries(dict(nsock=st.integers(1, 3), nonblock=st.booleans(), ops=st.lists(op, min_size=1, max_size=80 if tier == "thorough" else 40),
                                      io=gen.io_tape, misc=gen.misc_tape, seed=gen.seed))


class Op:
    pass


class W:
    def __init__(self, L, case):
        self.L, self.case = L, case
        self.keep = sim.Keep()
        self.ep = [L.sim_new_stream() for _ in range(case["nsock"])]
        for e in self.ep:
            L.sim_set_nonblock(e, case["nonblock"])
        n = case["nsock"]
        self.fed, self.wr = [0] * n, [0] * n        # bytes fed / accepted for writing by completed ops
        self.rxe, self.txe, self.eof = [0] * n, [0] * n, [0] * n
        self.pend = {}          # (s, kind) -> Op
        self.done = self.part = self.neg = self.zero = self.canc = 0
        self.fuel = 60
        self.stopped = 0
        self.cb = self.keep.cb(sim.CB_VSS, self.fired)
        self.byid = {}
        self.nid = 0

    def progress(self, o):
        return (self.L.sim_rx_read(o.ep) if o.kind == "read" else self.L.sim_tx_len(o.ep)) - o.start

    def begin(self, s, kind, n, part, then, fail=False):
        L = self.L
        if (s, kind) in self.pend:
            return
        o = Op()
        o.s, o.ep, o.kind, o.n, o.then = s, self.ep[s], kind, n, then
        o.min = n * part // 1000
        if kind == "read" and o.min == 0 and part:
            o.min = 1
        if kind == "write":
            o.tag = "w%d" % s
            o.src = world.pattern(o.tag, L.sim_tx_len(o.ep), n)
            o.buf = C.create_string_buffer(o.src + b"\xa5" * GUARD, n + GUARD)
            o.start = L.sim_tx_len(o.ep)
        else:
            o.buf = C.create_string_buffer(b"\xa5" * (n + GUARD), n + GUARD)
            o.start = L.sim_rx_read(o.ep)
        self.nid += 1
        o.id = self.nid
        if fail:
            L.sim_alloc_fail_at = 0
        fn = L.network_read if kind == "read" else L.network_write
        o.cookie = fn(L.sim_fd(o.ep), C.addressof(o.buf), n, o.min, self.cb, o.id)
        failed = fail and L.sim_alloc_fail_at == -1
        L.sim_alloc_fail_at = -1
        check(bool(o.cookie) == (not failed), "%s of %d bytes could %s", kind, n, "not be started" if not o.cookie else "be started without memory")
        if o.cookie:
            self.byid[o.id] = o
            self.pend[(s, kind)] = o
            if fail:
                self.cancel(s, kind)    # no memory was needed; that depends on earlier cases

    def cancel(self, s, kind):
        o = self.pend.pop((s, kind), None)
        if o is None:
            return
        (self.L.network_read_cancel if kind == "read" else self.L.network_write_cancel)(o.cookie)
        del self.byid[o.id]
        self.canc += 1
        o.frozen = self.progress(o)
        self.inspect(o, o.frozen)

    def inspect(self, o, n):
        """The buffer of an operation which has moved n bytes."""
        L = self.L
        b = o.buf.raw
        check(b[o.n:] == b"\xa5" * GUARD, "bytes beyond the %d-byte buffer were changed", o.n)
        check(n <= o.n, "%d bytes were moved by a %s of at most %d", n, o.kind, o.n)
        if o.kind == "read":
            check(b[:n] == world.pattern("r%d" % o.s, o.start, n), "the %d bytes read are not the next bytes of the stream", n)
        else:
            check(b[:o.n] == o.src, "the buffer being written was changed")

    def fired(self, cid, n):
        L = self.L
        o = self.byid.pop(cid, None)
        if o is None:
            raise Violation("the callback of an operation which has finished or been cancelled was called")
        del self.pend[(o.s, o.kind)]
        p = self.progress(o)
        self.inspect(o, p)
        if n > 0:
            check(o.min <= n <= o.n, "%s of %d to %d bytes reported %d", o.kind, o.min, o.n, n)
            check(n == p, "%s reported %d bytes but moved %d", o.kind, n, p)
            self.done += 1
            self.part += n < o.n
        elif n == 0:
            check(o.kind == "read", "a write reported end of file")
            check(self.eof[o.s] and L.sim_rx_unread(o.ep) == 0, "end of file was reported %s", "before it happened" if not self.eof[o.s] else "before the data was read")
            check(p < max(o.min, 1), "end of file was reported although %d of at least %d bytes had been read", p, o.min)
            self.zero += 1
        else:
            check(n == -1, "%s reported %d", o.kind, n)
            if o.kind == "read":
                check(self.rxe[o.s] and L.sim_rx_unread(o.ep) == 0, "a read failed although %s", "no error happened" if not self.rxe[o.s] else "data was waiting")
                self.eof[o.s] = 1
            else:
                check(self.txe[o.s], "a write failed although no error happened")
            check(p < max(o.min, 1), "an operation failed after moving %d bytes of at least %d", p, o.min)
            self.neg += 1
        t = o.then
        self.fuel -= 1
        if self.fuel > 0:
            other = "write" if o.kind == "read" else "read"
            if t in ("again", "twice") and n > 0:
                self.begin(o.s, o.kind, o.n, 500, "again" if t == "twice" else "")
            elif t == "cancel-other":
                self.cancel(o.s, other)
                self.cancel((o.s + 1) % len(self.ep), o.kind)
            elif t in ("read", "write"):
                self.begin((o.s + 1) % len(self.ep), t, o.n, 1000, "")
            elif t == "stop":
                self.stopped = 17
                return 17
        return 0

    def run(self):
        L = self.L
        while True:
            rc = L.sim_run(L.sim_now)
            self.keep.reraise()
            if rc != 0 and self.stopped == rc:
                self.stopped = 0
                continue
            break
        check(rc == 0, "the event loop failed with status %d", rc)
        check(not L.sim_livelock, "the event loop spins without making progress")
        check(not self.stopped, "a callback's status was not passed on")
        for o in self.pend.values():
            r = L.sim_ready(o.ep)
            p = self.progress(o)
            self.inspect(o, p)
            check(p < max(o.min, 1), "a %s of at least %d bytes has moved %d but does not finish", o.kind, o.min, p)
            check(not r & (1 if o.kind == "read" else 4), "a %s does not proceed although the socket is ready", o.kind)

    def wire(self, s):
        ep = self.ep[s]
        n = self.L.sim_tx_avail(ep)
        if n:
            off = self.L.sim_tx_len(ep) - n
            check(self.L.take(ep, n) == world.pattern("w%d" % s, off, n), "bytes on the wire differ from those written")


def run(case):
    L = sim.load()
    sim.fresh_sim(L, case["io"], case["misc"], case["seed"])
    w = W(L, case)
    try:
        return run1(L, w, case)
    finally:
        for o in w.pend.values():
            (L.network_read_cancel if o.kind == "read" else L.network_write_cancel)(o.cookie)


def run1(L, w, case):
    for op in case["ops"]:
        o = op[0]
        s = op[1] % len(w.ep) if len(op) > 1 else 0
        if o in ("read", "write"):
            w.begin(s, o, op[2], op[3], op[4])
        elif o in ("failr", "failw"):
            w.begin(s, "read" if o == "failr" else "write", op[2], 1000, "", fail=True)
        elif o == "feed":
            if not w.eof[s] and not w.rxe[s]:
                L.feed(w.ep[s], world.pattern("r%d" % s, w.fed[s], op[2]))
                w.fed[s] += op[2]
        elif o == "take":
            n = min(op[2], L.sim_tx_avail(w.ep[s]))
            off = L.sim_tx_len(w.ep[s]) - L.sim_tx_avail(w.ep[s])
            check(L.take(w.ep[s], n) == world.pattern("w%d" % s, off, n), "bytes on the wire differ from those written")
        elif o == "eof":
            w.eof[s] = 1
            L.sim_feed_eof(w.ep[s])
        elif o == "rxerr":
            if not w.rxe[s] and not w.eof[s]:
                w.rxe[s] = op[2]
                L.sim_feed_err(w.ep[s], op[2], 0)
                w.txe[s] = 32
                L.sim_set_txerr(w.ep[s], 32)    # an error of the connection concerns both directions
        elif o == "txerr":
            w.txe[s] = op[2]
            L.sim_set_txerr(w.ep[s], op[2])
        elif o == "hup":
            w.txe[s] = 32
            L.sim_set_txerr(w.ep[s], 32)
            L.sim_set_hup(w.ep[s], 1)
            w.eof[s] = 1
            L.sim_feed_eof(w.ep[s])
        elif o == "cap":
            L.sim_set_txcap(w.ep[s], op[2])
        elif o == "cancelr":
            w.cancel(s, "read")
        elif o == "cancelw":
            w.cancel(s, "write")
        elif o == "run":
            w.run()
        elif o == "step":
            rc = L.sim_once(L.sim_now, None)
            w.keep.reraise()
            check(rc in (0, w.stopped), "the event loop failed with status %d", rc)
            w.stopped = 0
    w.run()
    before = [(L.sim_rx_read(e), L.sim_tx_len(e)) for e in w.ep]
    for s, k in list(w.pend):
        w.cancel(s, k)
    for s, e in enumerate(w.ep):
        L.sim_set_txcap(e, 1 << 20)
        if not w.eof[s]:
            L.feed(e, b"late")
    w.run()
    check(before == [(L.sim_rx_read(e), L.sim_tx_len(e)) for e in w.ep], "a cancelled operation went on moving data")
    for s in range(len(w.ep)):
        w.wire(s)
    p = L.problems()
    check(not p, "misuse of a descriptor: %s", p.strip())
    cl = [k for k, v in (("partial", w.part), ("eof", w.zero), ("error", w.neg), ("cancelled", w.canc), ("eintr", L.sim_n_eintr)) if v]
    return dict(nontrivial=w.done + w.zero + w.neg >= 2, classes=cl)


TARGETS = [Target("history", strat, run, "at least two operations completed", quick=(8, 1800, 14), thorough=(8, 60000, 300))]
