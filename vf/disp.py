"""Histories of many connections through one dispatcher (spiped/dispatch.c) over
the virtual kernel: shared by C21 (limit), C22 (shutdown) and C23 (isolation)."""
import ctypes as C
from hypothesis import strategies as st
from . import gen, ref, sim, world
from .core import Violation, check

MS = 1000000
KEY = b"disp"
SIZE_MAX = 2**64 - 1


def strategy(kind, tier):
    ci = st.integers(0, 11)
    side = st.sampled_from(["plain", "wire"])
    good = [
        st.tuples(st.just("arrive"), st.integers(1, 4)), st.tuples(st.just("up"), ci), st.tuples(st.just("up"), ci),
        st.tuples(st.just("conn"), ci, st.just(0)), st.tuples(st.just("hs"), ci, st.sampled_from([1, 32, 100, 320])),
        st.tuples(st.just("data"), ci, side, st.integers(1, 3000)), st.tuples(st.just("data"), ci, side, st.integers(1, 3000)),
        st.tuples(st.just("eof"), ci, side), st.tuples(st.just("close"), ci), st.tuples(st.just("close"), ci),
        st.tuples(st.just("adv"), st.sampled_from([0, 1, 400, 999, 1001, 5000])), st.tuples(st.just("acceptblip"), st.sampled_from([11, 103, 4])),
        st.tuples(st.just("join"))]
    bad = [
        st.tuples(st.just("conn"), ci, st.sampled_from([111, 110, 113])), st.tuples(st.just("reset"), ci, side), st.tuples(st.just("reset"), ci, side),
        st.tuples(st.just("garbage"), ci, st.sampled_from([1, 32, 288, 320, 1060, 3000])), st.tuples(st.just("badpkt"), ci, st.integers(0, 1059)),
        st.tuples(st.just("stall"), ci), st.tuples(st.just("cut"), ci, side), st.tuples(st.just("flood"), ci, side), st.tuples(st.just("gone"), ci)]
    if kind == "limit":
        op = st.one_of(*(good + [good[0], bad[0], bad[1], bad[3], st.tuples(st.just("adv"), st.just(1001))]))
    elif kind == "shutdown":
        op = st.one_of(*(good + [good[0], bad[0], bad[1]]))
    else:
        op = st.one_of(*(good + bad + bad))
    n = 60 if tier == "thorough" else 30
    d = dict(role=st.sampled_from(["client", "server"]), io=gen.io_tape, misc=gen.misc_tape, seed=gen.seed,
             limit=st.sampled_from([1, 2, 3, 4] if kind == "limit" else [SIZE_MAX, SIZE_MAX, 100, 3]),
             pre=st.integers(1, 6), preup=st.integers(0, 5),
             ops=st.lists(op, min_size=1, max_size=n))
    if kind == "shutdown":
        d["after"] = st.lists(op, max_size=n)
    return st.fixed_dictionaries(d)


class Conn:
    """One incoming connection and everything known about it."""

    def __init__(self, w, ep, i):
        self.w, self.L, self.ep, self.i = w, w.L, ep, i
        self.acc = False
        self.out = None
        self.healthy = True         # nothing happened which would justify ending it
        self.over = False           # both directions ended regularly
        self.tacc = None
        self.tconn = None
        self.hsfed, self.hsdone = 0, False
        self.log, self.outb = bytearray(), bytearray()
        self.log_taken = 0
        self.sent = {"plain": 0, "wire": 0}
        self.got = {"plain": 0, "wire": 0}
        self.eofs = {"plain": False, "wire": False}
        self.stalled = False
        self.nonce = ref.sha256(b"peer%d-%d" % (w.case["seed"], i))
        self.tx = self.rx = None
        self.checked = 320

    @property
    def wire(self):
        return self.ep if self.w.role == "server" else self.out_ok()

    @property
    def plain(self):
        return self.out_ok() if self.w.role == "server" else self.ep

    def out_ok(self):
        return self.out if self.tconn is not None else None

    def dead(self):
        return self.acc and bool(self.L.sim_closed(self.ep))

    def up(self):
        return self.acc and self.tconn is not None and self.hsdone

    def pull(self):
        L = self.L
        if self.stalled or not self.acc:
            return
        if self.wire is not None:
            self.log += L.take(self.wire)
        if self.plain is not None:
            self.outb += L.take(self.plain)

    def feed(self, ep, b):
        if not self.L.sim_closed(ep):
            self.L.feed(ep, b)
            return True
        return False

    def handshake(self, n):
        if self.dead() or self.wire is None or self.hsfed == 320 or self.eofs["wire"] or not self.healthy:
            return
        self.pull()
        b = self.nonce
        if len(self.log) >= 32:
            mine = bytes(self.log[:32])
            nC, nS = (self.nonce, mine) if self.w.role == "server" else (mine, self.nonce)
            mC, mS = ref.dhmacs(self.w.K, nC, nS)
            kc, ks = ref.session_keys(self.w.K, nC, nS, 1)
            self.tx, self.rx = (kc, ks) if self.w.role == "server" else (ks, kc)
            b += ref.yh(1, mC if self.w.role == "server" else mS)
        k = b[self.hsfed:self.hsfed + n]
        if k and self.feed(self.wire, k):
            self.hsfed += len(k)
            self.hsdone = self.hsfed == 320

    def send(self, side, n):
        if self.dead() or self.eofs[side] or not self.acc:
            return
        if side == "plain":
            if self.plain is None:
                return
            if self.feed(self.plain, world.pattern("p%d" % self.i, self.sent["plain"], n)):
                self.sent["plain"] += n
        elif self.hsdone and self.healthy:
            while n > 0:
                k = min(n, 1024)
                self.feed(self.wire, self.tx.seal(world.pattern("w%d" % self.i, self.sent["wire"], k)))
                self.sent["wire"] += k
                n -= k

    def eof(self, side):
        ep = self.plain if side == "plain" else self.wire
        if self.dead() or not self.acc or ep is None or self.eofs[side]:
            return
        self.eofs[side] = True
        self.L.sim_feed_eof(ep)
        if side == "wire" and not self.hsdone:
            self.healthy = False
        if all(self.eofs.values()):
            self.over = True

    def spoil(self):
        self.healthy = False

    def data_ok(self):
        """Whatever has come out must be right, also on a connection which has failed."""
        self.pull()
        check(bytes(self.outb) == world.pattern("w%d" % self.i, 0, len(self.outb)) and len(self.outb) <= self.sent["wire"],
              "connection %d: the bytes delivered are not those which were sent", self.i)
        while self.rx is not None and len(self.log) - self.checked >= 1060:
            p = self.rx.open(bytes(self.log[self.checked:self.checked + 1060]))
            check(p is not None, "connection %d: a packet does not decrypt with its session's key", self.i)
            self.checked += 1060
            check(p[0] == world.pattern("p%d" % self.i, self.got["wire"], len(p[0])), "connection %d: a packet carries other data than was sent", self.i)
            self.got["wire"] += len(p[0])


class W:
    def __init__(self, L, case):
        self.L, self.case, self.role = L, case, case["role"]
        self.keep = sim.Keep()
        self.K = ref.sha256(KEY)
        self.lis = L.sim_new_listener()
        self.T = 1000 * MS
        self.limit = case["limit"]
        self.done = C.c_int(0)
        self.conns = []
        self.nacc = 0
        self.shut = False
        self.joined = 0
        self.nacc_shut = None
        self.maxactive = self.waited = self.refused = 0
        self.nconnect = 0
        self.cc = self.keep.cb(sim.CB_CONN, self.conncb)
        L.sim_set_conncb(self.cc)
        self.start(sim.addrlist(L, ["[10.0.0.1]:1234"]))

    def start(self, sas):
        L, case = self.L, self.case
        self.A = L.dispatch_accept(L.sim_fd(self.lis), b"unused:1", 0.0, sas, None, 1 if self.role == "server" else 0, 1, 0, 0,
                                   world.secret(L, KEY), self.limit, self.T / 1e9, C.byref(self.done))
        check(self.A, "the dispatcher could not be started")

    def conncb(self, what, x, sa, n):
        if what == 2:
            # The connection accepted last is the one being connected.
            a = len([c for c in self.conns if c.ep is not None and self.L.sim_fd(c.ep) >= 0 and not self.L.sim_closed(c.ep)])
            check(a <= self.limit, "%d connections are open at once, the limit is %d", a, self.limit)
        return -1

    def refresh(self):
        """Learn which connections have been accepted."""
        L = self.L
        for c in self.conns:
            if not c.acc and (L.sim_fd(c.ep) != -1 or L.sim_closed(c.ep)):
                c.acc = True
                check(all(d.acc for d in self.conns[:c.i]), "a connection was accepted before one which arrived earlier")
        n = L.sim_nconnects()
        acc = [c for c in self.conns if c.acc]
        check(n == len(acc), "%d connections were accepted but %d connections to the target were tried", len(acc), n)
        for k, c in enumerate(acc):
            if c.out is None:
                c.out = L.sim_connect_ep(k)
                c.tacc = L.sim_t_create(c.out)
        self.nacc = len(acc)

    def active(self):
        return [c for c in self.conns if c.acc and not c.dead()]

    def run(self, ms=0):
        L = self.L
        until = L.sim_now + ms * MS
        rc = 0
        if self.done.value == 0:
            while True:
                rc = L.sim_run(until)
                break
        self.keep.reraise()
        check(rc == 0, "the event loop was stopped with status %d, which ends the daemon", rc)
        check(not L.sim_livelock, "the event loop spins without making progress")
        self.refresh()
        for c in self.conns:
            c.data_ok()
        for c in self.conns:
            c.pull()
        self.look()

    def look(self):
        L = self.L
        act = self.active()
        self.maxactive = max(self.maxactive, len(act))
        check(len(act) <= self.limit, "%d connections are open at once, the limit is %d", len(act), self.limit)
        pend = L.sim_listener_pending(self.lis)
        if self.shut:
            check(self.nacc == self.nacc_shut, "a connection was accepted after shutdown had been requested")
            check(bool(self.done.value) == (not act), "shutdown was requested, %d connections are active, and completion is %s", len(act), "signalled" if self.done.value else "not signalled")
        else:
            check(not self.done.value, "completion of a shutdown was signalled which nobody requested")
            if pend:
                check(len(act) >= self.limit, "%d connections are waiting although only %d of %d are in use", pend, len(act), self.limit)
                self.waited += 1
        for c in self.conns:
            if not c.acc:
                continue
            if c.healthy and not c.over:
                late = (c.tconn is None and L.sim_now >= c.tacc + self.T - MS) or (not c.hsdone and L.sim_now >= (c.tacc if self.role == "server" or c.tconn is None else c.tconn) + self.T - MS)
                if not late:
                    check(not c.dead(), "connection %d was dropped although it did nothing wrong", c.i)
                else:
                    c.healthy = False
            if c.dead():
                for e in (c.ep, c.out):
                    check(e is None or L.sim_closed(e), "connection %d has ended but a socket of it is still open", c.i)

    def pick(self, i, f=lambda c: True):
        l = [c for c in self.conns if c.acc and not c.dead() and f(c)]
        return l[i % len(l)] if l else None

    def bringup(self, c):
        if c is None or not c.healthy:
            return
        self.connect(c, 0)
        self.run()
        for _ in range(3):
            c.handshake(320)
            self.run()

    def connect(self, c, err):
        if c.tconn is None and c.out is not None and self.L.sim_state(c.out) == 1:
            self.L.sim_connect_done(c.out, err)
            if err:
                c.spoil()
            else:
                c.tconn = self.L.sim_now

    def step(self, op):
        L, o = self.L, op[0]
        if o == "join":             # the next thing happens together with the one after it
            self.joined = 2
            return
        if o == "arrive":
            for _ in range(op[1]):
                if len(self.conns) < 60 and L.sim_listener_pending(self.lis) < 200:
                    self.conns.append(Conn(self, L.sim_incoming(self.lis), len(self.conns)))
        elif o == "acceptblip":
            L.sim_push_accept(op[1])
        elif o == "adv":
            self.run(op[1])
        elif o == "up":
            self.bringup(self.pick(op[1], lambda c: not c.up()))
        else:
            c = self.pick(op[1])
            if c is None:
                return
            if o == "conn":
                self.connect(c, op[2])
            elif o == "hs":
                c.handshake(op[2])
            elif o == "data":
                c.send(op[2], op[3])
            elif o == "eof":
                c.eof(op[2])
            elif o == "close":
                c.eof("plain")
                c.eof("wire")
            elif o in ("reset", "gone", "cut"):
                if o == "cut":      # one side ends just when the other breaks
                    c.eof("wire" if op[2] == "plain" else "plain")
                for side in (["plain", "wire"] if o == "gone" else [op[2]]):
                    ep = c.plain if side == "plain" else c.wire
                    if ep is not None:
                        c.spoil()
                        L.sim_feed_err(ep, 104, 1)
                        L.sim_set_txerr(ep, 32)
                        L.sim_set_hup(ep, 1)
            elif o == "garbage":
                if c.wire is not None and not c.eofs["wire"]:
                    c.spoil()
                    c.feed(c.wire, world.pattern("junk%d" % c.i, 0, op[2]))
            elif o == "badpkt":
                if c.up() and c.healthy and not c.eofs["wire"]:
                    p = bytearray(c.tx.seal(b"never seen"))
                    p[op[2]] ^= 0x40
                    c.spoil()
                    c.feed(c.wire, bytes(p))
            elif o == "stall":
                # Nothing is read from it any more.
                c.stalled = True
                if not c.up():
                    c.spoil()       # its handshake cannot complete
                for ep in (c.plain, c.wire):
                    if ep is not None:
                        L.sim_set_txcap(ep, L.sim_tx_avail(ep))
            elif o == "flood":
                c.send(op[2], 60000)
        self.joined -= 1
        if self.joined <= 0 or o == "up":
            self.run()

    def deliver_all(self):
        """Healthy connections carry everything, both ways."""
        for c in self.active():
            if c.up() and c.healthy and not c.stalled and not c.over:
                a = len(c.outb)
                c.send("plain", 1500)
                c.send("wire", 1500)
        self.run()
        for c in self.conns:
            if c.up() and c.healthy and not c.stalled:
                check(len(c.outb) == c.sent["wire"], "connection %d: only %d of %d bytes were delivered", c.i, len(c.outb), c.sent["wire"])
                check(c.got["wire"] == c.sent["plain"], "connection %d: only %d of %d bytes were sent on", c.i, c.got["wire"], c.sent["plain"])
            if c.up() and c.healthy and c.over and not c.stalled:
                check(c.dead(), "connection %d has ended in both directions but is kept", c.i)

    def close(self):
        if self.A:
            a, self.A = self.A, None
            self.L.dispatch_shutdown(a)
        self.L.sim_set_conncb(C.cast(None, sim.CB_CONN))


def once(L, case, kind):
    w = W(L, case)
    try:
        w.step(("arrive", case["pre"]))
        for i in range(case["preup"]):
            w.bringup(w.pick(i, lambda c: not c.up()))
        for op in case["ops"]:
            w.step(op)
        w.deliver_all()
        served0 = len([c for c in w.conns if c.up()])
        if kind == "shutdown":
            before = w.active()
            w.shut, w.nacc_shut = True, w.nacc
            w.npre = len(before)
            L.dispatch_request_shutdown(w.A)
            w.look()
            w.step(("arrive", 2))
            for op in case["after"]:
                w.step(op)
                if w.done.value:
                    break
            if not w.done.value:
                w.deliver_all()
            # Everything still open comes to its natural end.
            for c in list(w.active()):
                check(not w.done.value, "completion was signalled while connections were active")
                w.bringup(c)
                if c.up() and c.healthy and not c.stalled and not c.over:
                    w.deliver_all()
                    c.eof("plain")
                    c.eof("wire")
                elif not c.dead():
                    for side in ("plain", "wire"):
                        ep = c.plain if side == "plain" else c.wire
                        if ep is not None:
                            c.spoil()
                            L.sim_feed_err(ep, 104, 1)
                            L.sim_set_txerr(ep, 32)
                            L.sim_set_hup(ep, 1)
                w.run()
            w.run(3000)
            if w.done.value == 0:
                check(not w.active(), "harness: connections should have ended")
            check(w.done.value, "all connections have ended but completion is not signalled")
        else:
            # Time limits clear out everything which never got anywhere.
            w.run(3000)
            w.run(3000)
            w.deliver_all()
            for c in w.conns:
                if c.acc and not c.up() and L.sim_now > c.tacc + 2 * w.T + 2000 * MS:
                    check(c.dead(), "connection %d never completed its handshake but is kept after the time limits", c.i)
            # All waiting connections get their turn.
            for _ in range(200):
                if not L.sim_listener_pending(w.lis) and not w.active():
                    break
                for c in list(w.active()):
                    ep = c.plain or c.wire or c.ep
                    c.spoil()
                    for ep in (c.ep, c.out_ok()):
                        if ep is not None:
                            L.sim_feed_err(ep, 104, 1)
                            L.sim_set_txerr(ep, 32)
                            L.sim_set_hup(ep, 1)
                w.run(1500)
            check(not L.sim_listener_pending(w.lis) and not w.active(), "%d connections are never served, %d never end", L.sim_listener_pending(w.lis), len(w.active()))
            check(w.nacc == len(w.conns), "only %d of %d connections were served", w.nacc, len(w.conns))
        w.served = len([c for c in w.conns if c.up()])
        w.bad = len([c for c in w.conns if not c.healthy])
        w.served0 = served0
    finally:
        w.close()
    w.keep.reraise()
    p = L.problems()
    check(not p, "misuse of a descriptor: %s", p.strip())
    left = L.sim_nopen() - L.sim_listener_pending(w.lis) if False else L.sim_nopen()
    check(left == 0, "%d descriptors are still open after the dispatcher was shut down", left)
    return w


def run(case, kind):
    L = sim.load()
    world.secret(L, KEY)
    live = []
    reps = 3 if case["seed"] % 4 == 0 else 1
    try:
        for rep in range(reps):
            sim.fresh_sim(L, case["io"], case["misc"], case["seed"])
            L.sim_alloc_track = 1
            w = once(L, case, kind)
            live.append(L.sim_alloc_live)
    finally:
        L.sim_alloc_track = 0
    if reps == 3:
        check(live[2] == live[1], "each run of the dispatcher leaves %d blocks of memory behind", live[2] - live[1])
    cl = [w.role]
    if kind == "limit":
        nt = w.waited > 0
    elif kind == "shutdown":
        nt = w.npre > 0
    else:
        nt = w.served0 > 0 and w.bad > 0
    if w.waited:
        cl.append("queueing")
    return dict(nontrivial=nt, classes=cl)
