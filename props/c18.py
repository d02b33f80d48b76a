"""C18: the buffered reader is a faithful window onto the stream."""
import ctypes as C
from hypothesis import strategies as st
from vf import gen, sim, world
from vf.core import Target, Violation, check

sz = st.one_of(st.integers(0, 40), st.integers(1, 3000), st.sampled_from([32, 288, 1060, 4095, 4096, 4097, 8191, 8192, 8193, 20000]))


def strat(tier):
    op = st.one_of(
        st.tuples(st.just("wait"), sz, st.sampled_from(["", "", "consume", "consume-rest", "loop", "stop"])),
        st.tuples(st.just("wait"), sz, st.sampled_from(["", "consume", "loop"])),
        st.tuples(st.just("feed"), st.one_of(sz, st.integers(1, 30000))), st.tuples(st.just("feed"), sz),
        st.tuples(st.just("consume"), st.integers(0, 1000)), st.tuples(st.just("cancel")), st.tuples(st.just("waitfail"), sz, st.integers(0, 2)),
        st.tuples(st.just("run")), st.tuples(st.just("run")), st.tuples(st.just("step")), st.tuples(st.just("eof")), st.tuples(st.just("err")))
    return st.fixed_dictionaries(dict(ops=st.lists(op, min_size=1, max_size=80 if tier == "thorough" else 45), io=gen.io_tape, misc=gen.misc_tape, seed=gen.seed))


class W:
    def __init__(self, L):
        self.L = L
        self.keep = sim.Keep()
        self.ep = L.sim_new_stream()
        self.R = L.netbuf_read_init(L.sim_fd(self.ep))
        check(self.R, "a reader could not be created")
        self.cb = self.keep.cb(sim.CB_VI, self.fired)
        self.base = 0           # stream offset of the first unconsumed byte
        self.have = 0           # bytes in the window
        self.fed = 0
        self.eof = self.err = 0
        self.want = None        # length waited for
        self.then = ""
        self.lost = False       # a cancelled wait had read something, or a read ended early
        self.maxlen = 0
        self.ok = self.bad = self.imm = self.big = 0
        self.fuel = 80
        self.stopped = 0
        self.sat = False

    def peek(self):
        p, n = sim.VP(), sim.SZ()
        self.L.netbuf_read_peek(self.R, C.byref(p), C.byref(n))
        check(n.value == self.have, "the window holds %d bytes, reported %d", self.have, n.value)
        got = C.string_at(p.value, n.value) if n.value else b""
        check(got == world.pattern("nb", self.base, self.have), "the window of %d bytes at offset %d shows other data than the stream's", self.have, self.base)

    def consume(self, n):
        self.peek()
        self.L.netbuf_read_consume(self.R, n)
        self.base += n
        self.have -= n
        self.peek()

    def wait(self, n, then, fail=None):
        L = self.L
        if self.want is not None or self.lost:
            return
        self.maxlen = max(self.maxlen, n)
        self.sat = self.have >= n
        if fail is not None:
            L.sim_alloc_fail_at = fail
        r = L.netbuf_read_wait(self.R, n, self.cb, None)
        failed = fail is not None and L.sim_alloc_fail_at == -1
        L.sim_alloc_fail_at = -1
        check(r == (-1 if failed else 0), "waiting for %d bytes returned %d", n, r)
        if failed:
            L.netbuf_read_wait_cancel(self.R)       # must be harmless
        else:
            self.want, self.then = n, then
            self.big += n > 4096
        self.peek()

    def fired(self, _c, status):
        L = self.L
        check(self.want is not None, "a wait which has finished or been cancelled called back")
        n, self.want = self.want, None
        if status == 0:
            if not self.sat:
                self.have = L.sim_rx_read(self.ep) - self.base
            check(self.have >= n, "told that %d bytes are there, but there are %d", n, self.have)
            self.ok += 1
            self.imm += self.sat
        else:
            check(not self.sat, "a wait for %d bytes of which %d are there ended with status %d", n, self.have, status)
            check(L.sim_rx_unread(self.ep) == 0 and L.sim_rx_read(self.ep) - self.base < n, "a wait for %d bytes ended with status %d although they were there", n, status)
            check(self.eof if status == 1 else (status == -1 and self.err), "a wait ended with status %d (end of file: %s, error: %s)", status, bool(self.eof), bool(self.err))
            if status == -1:
                self.eof, self.err = 1, 0
            self.bad += 1
            if L.sim_rx_read(self.ep) != self.base + self.have:
                self.lost = True
        self.peek()
        t = self.then
        self.fuel -= 1
        if status == 0 and t == "consume":
            self.consume(n)
        elif status == 0 and t == "consume-rest":
            self.consume(self.have)
        elif t == "loop" and status == 0 and self.fuel > 0:
            self.consume(n)
            if n:
                self.wait(n, "loop")
        elif t == "stop":
            self.stopped = 9
            return 9
        return 0

    def bound(self):
        held = self.L.sim_rx_read(self.ep) - self.base
        check(held <= max(4096, 2 * self.maxlen), "%d bytes are buffered although at most %d were ever waited for", held, self.maxlen)

    def run(self):
        L = self.L
        while True:
            rc = L.sim_run(L.sim_now)
            self.keep.reraise()
            if rc != 0 and rc == self.stopped:
                self.stopped = 0
                continue
            break
        check(rc == 0, "the event loop failed with status %d", rc)
        check(not L.sim_livelock, "the event loop spins without making progress")
        if self.want is not None:
            check(not self.sat, "a wait for data which is there never finishes")
            check(L.sim_rx_read(self.ep) - self.base < self.want, "a wait for %d bytes does not finish though they were read", self.want)
            check(not L.sim_ready(self.ep) & 1, "a wait does not finish although more input is ready")
        self.bound()


def run(case):
    L = sim.load()
    sim.fresh_sim(L, case["io"], case["misc"], case["seed"])
    w = W(L)
    try:
        return run1(L, w, case)
    finally:
        L.netbuf_read_wait_cancel(w.R)
        L.netbuf_read_free(w.R)


def run1(L, w, case):
    for op in case["ops"]:
        o = op[0]
        if o == "wait":
            w.wait(op[1], op[2])
        elif o == "waitfail":
            w.wait(op[1], "", fail=op[2])
        elif o == "feed":
            if not w.eof and not w.err:
                L.feed(w.ep, world.pattern("nb", w.fed, op[1]))
                w.fed += op[1]
        elif o == "consume":
            if w.want is None:
                w.consume(w.have * op[1] // 1000)
        elif o == "cancel":
            L.netbuf_read_wait_cancel(w.R)
            if w.want is not None:
                w.want = None
                # Data read for a cancelled wait is given up; the reader is not used again.
                if L.sim_rx_read(w.ep) != w.base + w.have:
                    w.lost = True
            w.peek()
        elif o == "run":
            w.run()
        elif o == "step":
            rc = L.sim_once(L.sim_now, None)
            w.keep.reraise()
            check(rc in (0, w.stopped), "the event loop failed with status %d", rc)
            w.stopped = 0
        elif o == "eof":
            if not w.err:
                w.eof = 1
                L.sim_feed_eof(w.ep)
        elif o == "err":
            if not w.eof and not w.err:
                w.err = 1
                L.sim_feed_err(w.ep, 104, 0)
        if w.want is None:
            w.peek()
    w.run()
    # Whatever has been fed can still be read to its end.
    L.netbuf_read_wait_cancel(w.R)
    w.want = None
    if L.sim_rx_read(w.ep) == w.base + w.have and not w.lost:
        n = w.fed - w.base
        w.wait(n, "")
        w.run()
        check(w.have == n or w.want is not None and n == 0, "the last %d of %d bytes could not be read", n, w.fed)
        w.peek()
    L.netbuf_read_wait_cancel(w.R)
    L.netbuf_read_free(None)
    p = L.problems()
    check(not p, "misuse of a descriptor: %s", p.strip())
    cl = [k for k, v in (("immediate", w.imm), ("failed", w.bad), ("grown", w.big), ("given-up", w.lost)) if v]
    return dict(nontrivial=w.ok >= 2, classes=cl)


TARGETS = [Target("history", strat, run, "at least two waits were satisfied", quick=(8, 1800, 14), thorough=(8, 60000, 300))]
