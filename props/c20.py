"""C20: a connection ends once, for the right reason, at the right time, and leaves nothing behind."""
from hypothesis import strategies as st
from vf import gen, ref, sim, world
from vf.core import Target, check
from vf.world import CLOSED, CANCELLED, CONNECT_FAILED, HANDSHAKE_FAILED, ERROR

MS = 1000000
NAMES = {CLOSED: "closed", CANCELLED: "cancelled", CONNECT_FAILED: "connecting failed", HANDSHAKE_FAILED: "handshake failed", ERROR: "error or timeout"}


def strat(tier):
    ms = st.sampled_from([0, 1, 9, 10, 11, 30, 49, 50, 51, 99, 100, 101, 999, 1000, 1001, 10**5, 10**8])
    op = st.one_of(
        st.tuples(st.just("adv"), ms), st.tuples(st.just("adv"), ms),
        st.tuples(st.just("conn"), st.sampled_from([0, 0, 0, 111, 110])), st.tuples(st.just("conn"), st.just(0)),
        st.tuples(st.just("hs"), st.sampled_from([1, 31, 32, 33, 288, 319, 320, 320, 320])), st.tuples(st.just("hs"), st.just(320)),
        st.tuples(st.just("hsbad"), st.integers(0, 287), st.integers(1, 255)),
        st.tuples(st.just("plain"), st.integers(1, 3000)), st.tuples(st.just("peer"), st.integers(1, 1024)),
        st.tuples(st.just("peerbad"), st.integers(0, 1059)), st.tuples(st.just("plain_eof")), st.tuples(st.just("peer_eof")),
        st.tuples(st.just("plain_reset")), st.tuples(st.just("peer_reset")), st.tuples(st.just("cut"), st.sampled_from(["plain", "peer"])), st.tuples(st.just("drop")))
    go = [["conn", 0], ["hs", 320]]
    pre = st.one_of(st.just([]), st.just([]), st.permutations(go).map(list), st.just(go + [["adv", 10**8]]))
    return st.fixed_dictionaries(dict(role=st.sampled_from(["client", "server"]), pfs=st.sampled_from([0, 0, 0, 0, 1]), nokeep=st.booleans(),
                                      timeo=st.sampled_from([10, 50, 100, 1000, 3600000]), naddrs=st.sampled_from([1, 1, 2, 3]), pre=pre,
                                      imm=st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from([115, 115, 4, 0, 0, 111, 101, 2, 13, 11]), max_size=3)),
                                      ops=st.lists(op, max_size=30 if tier == "thorough" else 14), io=gen.io_tape, misc=gen.misc_tape, seed=gen.seed,
                                      fin=st.sampled_from(["drop", "close", "close", "reset", "wait"])))


class One:
    def __init__(self, L, case, seed):
        self.L, self.case = L, case
        self.keep = sim.Keep()
        self.t0 = L.sim_now
        self.key = b"life"
        self.K = ref.sha256(self.key)
        self.role = case["role"]
        self.T = case["timeo"] * MS
        # What connect(2) itself says: connected, in progress, interrupted (a
        # connection is then made all the same) or failed at once.
        self.imm = list(case.get("imm", []))
        for e in self.imm:
            L.sim_push_connect(e)
        # The connection under test reports its end at once.
        self.conn = world.Conn(self, self.role, 0 if self.role == "client" else 1, self.key, nopfs=0 if case["pfs"] else 1, nokeep=int(case["nokeep"]),
                               timeo=case["timeo"] / 1000.0, naddrs=case["naddrs"])
        self.wire = self.plain = None
        if self.role == "server":
            self.wire = self.conn.in_ep
        else:
            self.plain = self.conn.in_ep
        self.tried = 1
        self.tconn = None           # when the target was reached
        self.ths = self.t0 if self.role == "server" else None   # when the handshake began
        self.hsdone = False
        self.hsfed = 0
        self.hsbad = None
        self.nonce = ref.sha256(b"n%d" % seed)
        self.log = bytearray()      # sent by the code on the wire
        self.expect = None          # (reason, earliest, latest)
        self.eofs = {"plain": False, "wire": False}
        self.keys = None
        self.data_in = 0
        self.out = bytearray()
        self.npkt = 0
        self.poison = False         # a bad packet has been sent
        self.launched = False
        self.phase = set()
        self.next_addr()

    def next_addr(self):
        """Account for the addresses whose outcome connect(2) tells at once."""
        while self.tried <= self.case["naddrs"]:
            e = self.imm[self.tried - 1] if self.tried <= len(self.imm) else 115
            if e in (115, 4):
                return
            if e == 0:
                self.phase.add("connected-at-once")
                self.reached()
                return
            self.phase.add("failed-at-once")
            self.tried += 1
        self.doom(CONNECT_FAILED)

    def reached(self):
        self.tconn = self.L.sim_now
        if self.role == "client":
            self.ths = self.tconn
        self.transition()

    def up(self):
        return self.hsdone and self.tconn is not None

    def run(self, ns=0):
        L = self.L
        rc = L.sim_run(L.sim_now + ns)
        self.keep.reraise()
        check(rc == 0, "the event loop was stopped with status %d (this ends the daemon)", rc)
        check(not L.sim_livelock, "the event loop spins without making progress")
        if self.tconn is not None:
            if self.role == "client":
                self.wire = self.conn.out_ep()
            else:
                self.plain = self.conn.out_ep()
        self.look()

    def doom(self, reason):
        if self.expect is None:
            self.expect = (reason, self.L.sim_now, self.L.sim_now)

    def limits(self):
        """Deadlines which pass in the time ahead: (time)"""
        d = []
        if self.tconn is None:
            d.append(self.t0 + self.T)
        if self.ths is not None and not self.hsdone:
            d.append(self.ths + self.T)
        return min(d) if d else None

    def pull(self):
        L = self.L
        if self.wire is not None:
            self.log += L.take(self.wire)
        if self.plain is not None:
            self.out += L.take(self.plain)

    def look(self):
        """Compare with what should be the case now."""
        L, c = self.L, self.conn
        self.pull()
        if self.expect is None:
            dl = self.limits()
            if dl is not None and L.sim_now >= dl + 2 * MS:
                self.expect = (ERROR, dl, dl + 2 * MS)
                self.phase.add("timeout-" + ("connect" if self.tconn is None else "handshake"))
        if self.expect is None:
            dl = self.limits()
            if c.dead and dl is not None and L.sim_now >= dl - MS:
                self.expect = (ERROR, dl, dl + 2 * MS)
                self.phase.add("timeout-edge")
        if self.expect is None:
            check(not c.dead, "the connection ended (%s) %d ms after it began although nothing calls for it (connected: %s, handshake done: %s, time limit %d ms)",
                  NAMES.get(c.dead[0] if c.dead else None), (L.sim_now - self.t0) // MS, self.tconn is not None, self.hsdone, self.T // MS)
            check(not L.sim_closed(c.in_ep), "the connection is alive but its socket is closed")
            if self.up() and not self.launched:
                self.launched = True
                for ep, n in ((c.in_ep, "incoming"), (c.out_ep(), "outgoing")):
                    check((L.sim_keepalive(ep) == 1) != self.case["nokeep"], "keep-alive on the %s socket is %d", n, L.sim_keepalive(ep))
                    check(L.sim_nodelay(ep) == 1, "nagling is not turned off on the %s socket", n)
        else:
            r, lo, hi = self.expect
            check(c.dead, "the connection should have ended (%s) by now, %d ms later, but has not", NAMES[r], (L.sim_now - lo) // MS)
            check(c.dead[0] == r, "the connection ended with status '%s', expected '%s'", NAMES.get(c.dead[0], c.dead[0]), NAMES[r])
            check(lo - MS <= c.dead_time <= hi + MS, "the connection ended %d us away from when it should", (c.dead_time - lo) // 1000)
        if c.dead:
            for ep in [c.in_ep] + c.connects():
                check(L.sim_closed(ep), "a socket of a connection which has ended is still open")

    def alive(self):
        return not self.conn.dead and self.expect is None

    def adv(self, ms):
        dl = self.limits()
        t = self.L.sim_now + ms * MS
        if self.expect is None and dl is not None and dl - MS < t < dl + 2 * MS:
            t = dl + 2 * MS     # do not stop on the edge
        self.run(t - self.L.sim_now)

    def connect(self, err):
        L = self.L
        if not self.alive() or self.tconn is not None:
            return
        ep = self.conn.out_ep()
        check(ep is not None and L.sim_state(ep) == 1, "the next target address is not being tried")
        L.sim_connect_done(ep, err)
        if err:
            self.tried += 1
            self.next_addr()
        else:
            self.reached()
        self.run()
        self.pull()

    def transition(self):
        """What happened to a side before data could flow takes effect when it can."""
        if self.up():
            if self.lateerr or self.poison:
                self.doom(ERROR)
                self.phase.add("late-error")
            elif all(self.eofs.values()):
                self.doom(CLOSED)
                self.phase.add("closed")

    def peerbytes(self):
        """The peer's 320 bytes, as far as they can be computed now."""
        self.pull()
        if len(self.log) < 32:
            return self.nonce
        mine = bytes(self.log[:32])
        nC, nS = (self.nonce, mine) if self.role == "server" else (mine, self.nonce)
        mC, mS = ref.dhmacs(self.K, nC, nS)
        self.nC, self.nS = nC, nS
        y = ref.yh(1, mC if self.role == "server" else mS)
        if self.hsbad:
            i, x = self.hsbad
            y = y[:i] + bytes([y[i] ^ x]) + y[i + 1:]
        return self.nonce + y

    def hs(self, n):
        if not self.alive() or self.wire is None or self.hsfed == 320 or self.eofs["wire"]:
            return
        b = self.peerbytes()
        k = b[self.hsfed:self.hsfed + n]
        if not k:
            return
        self.L.feed(self.wire, k)
        self.hsfed += len(k)
        if self.hsfed == 320:
            if self.hsbad:
                self.doom(HANDSHAKE_FAILED)
                self.phase.add("bad-handshake")
            else:
                self.hsdone = True
                self.transition()
        self.run()
        self.pull()
        if self.hsdone and self.keys is None:
            check(len(self.log) >= 320, "only %d bytes of its side of the handshake were sent", len(self.log))
            # y^x with y = 1 is 1
            kc, ks = ref.session_keys(self.K, self.nC, self.nS, 1)
            self.keys = kc if self.role == "server" else ks

    def eof(self, side):
        ep = self.plain if side == "plain" else self.wire
        if not self.alive() or ep is None or self.eofs[side]:
            return
        self.eofs[side] = True
        self.L.sim_feed_eof(ep)
        self.settle_eof()
        self.run()

    def settle_eof(self):
        if self.eofs["wire"] and not self.hsdone:
            self.doom(HANDSHAKE_FAILED)
        if self.up() and all(self.eofs.values()):
            self.doom(CLOSED)
            self.phase.add("closed")

    def reset(self, side):
        L = self.L
        ep = self.plain if side == "plain" else self.wire
        if not self.alive() or ep is None or self.eofs[side]:
            return
        L.sim_feed_err(ep, 104, 1)
        L.sim_set_txerr(ep, 32)
        L.sim_set_hup(ep, 1)
        self.eofs[side] = True
        if self.up():
            self.doom(ERROR)
            self.phase.add("reset")
        elif side == "wire" and not self.hsdone:
            self.doom(HANDSHAKE_FAILED)
        else:
            self.lateerr = True
        self.run()

    lateerr = False

    def step(self, op):
        L, o = self.L, op[0]
        if o == "adv":
            self.adv(op[1])
        elif o == "conn":
            self.connect(op[1])
        elif o == "hs":
            self.hs(op[1])
        elif o == "hsbad":
            if self.hsfed <= 32 and not self.hsbad:
                self.hsbad = (op[1], op[2])
        elif o == "plain":
            if self.alive() and self.plain is not None and not self.eofs["plain"]:
                L.feed(self.plain, bytes(op[1]))
                self.data_in += op[1]
                self.run()
        elif o in ("peer", "peerbad"):
            if self.alive() and self.keys is not None and not self.eofs["wire"] and not self.poison:
                p = bytearray(self.keys.seal(bytes(op[1] if o == "peer" else 5)))
                if o == "peerbad":
                    p[op[1]] ^= 1
                    self.poison = True
                L.feed(self.wire, bytes(p))
                if self.poison and self.up():
                    self.doom(ERROR)
                    self.phase.add("bad-packet")
                self.run()
        elif o.endswith("_eof"):
            self.eof("plain" if o[1] == "l" else "wire")
        elif o.endswith("_reset"):
            self.reset("plain" if o[1] == "l" else "wire")
        elif o == "cut":            # one side ends just when the other breaks
            if self.alive() and self.up() and not any(self.eofs.values()):
                self.L.sim_feed_eof(self.wire if op[1] == "plain" else self.plain)
                self.reset("plain" if op[1] == "plain" else "wire")
        elif o == "drop":
            if self.alive():
                self.doom(CANCELLED)
                self.conn.drop()
                self.run()


def once(L, case, seed):
    w = One(L, case, seed)
    w.run()
    for op in [tuple(x) for x in case["pre"]] + case["ops"]:
        w.step(op)
    fin = case["fin"]
    w.pull()
    if fin == "wait":
        w.adv(10**7)
    if w.alive() and fin in ("close", "reset", "wait") and not w.up():
        w.connect(0)
        w.hs(320)
        w.hs(320)
    if w.alive() and w.up() and fin in ("close", "wait"):
        w.step(("adv", 10**7))
        w.eof("plain")
        w.eof("wire")
        w.adv(1)
        check(w.conn.dead, "both directions have ended but the connection has not")
    elif w.alive() and w.up() and fin == "reset":
        w.reset("wire")
    if not w.conn.dead:
        w.step(("drop",))
    w.keep.reraise()
    check(len(w.conn.dead) == 1, "the end of the connection was reported %d times", len(w.conn.dead))
    w.run(10**7 * MS)
    check(len(w.conn.dead) == 1, "the end of the connection was reported %d times", len(w.conn.dead))
    p = L.problems()
    check(not p, "misuse of a descriptor: %s", p.strip())
    check(L.sim_nopen() == 0, "%d sockets are still open after the connection ended", L.sim_nopen())
    return w


def run(case):
    L = sim.load()
    world.secret(L, b"life")
    live = []
    w = None
    try:
        for rep in range(3):
            sim.fresh_sim(L, case["io"], case["misc"], case["seed"])
            L.sim_alloc_track = 1
            w = once(L, case, case["seed"])
            live.append(L.sim_alloc_live)
    finally:
        L.sim_alloc_track = 0
        if w is not None and not w.conn.dead:
            w.conn.drop()
    check(live[2] == live[1], "each connection leaves %d blocks of memory behind", live[2] - live[1])
    r = w.conn.dead[0]
    return dict(nontrivial=bool(case["ops"]) and (r != CANCELLED), classes=["end-%s" % NAMES[r].replace(" ", "-")] + sorted(w.phase) + (["pfs"] if case["pfs"] else []))


# --- a peer which does not take the code's side of the handshake ------------------
def sstrat(tier):
    return st.fixed_dictionaries(dict(role=st.sampled_from(["client", "server"]), pfs=st.sampled_from([0, 0, 1]), nokeep=st.just(False), timeo=st.sampled_from([50, 1000]),
                                      naddrs=st.just(1), conn=st.booleans(), cap=st.sampled_from([0, 1, 31, 32, 33, 100, 319]),
                                      fed=st.lists(st.integers(1, 320), max_size=4), end=st.sampled_from(["eof", "reset", "timeout", "drop", "connfail"]),
                                      io=gen.io_tape, misc=gen.misc_tape, seed=gen.seed))


def sonce(L, case):
    w = One(L, case, case["seed"])
    client = w.role == "client"
    cap = max(case["cap"], int(client))     # a full socket would not be seen to connect
    if client:
        w.wire = w.conn.out_ep()
    w.pull = lambda: None       # nothing is taken from the wire
    L.sim_set_txcap(w.wire, cap)
    conn = client or case["conn"]
    if conn:
        w.connect(0)
        if client:
            w.wire = w.conn.out_ep()
    w.run()
    n = 0
    for k in case["fed"]:
        if w.conn.dead:
            break
        k = min(k, 320 - n)
        L.feed(w.wire, b"\x55" * k)
        n += k
        # With its own nonce sent, a server judges the 288 bytes: they are wrong.
        if not client and cap >= 32 and n == 320:
            w.doom(HANDSHAKE_FAILED)
        w.run()
    end = case["end"]
    # Is it waiting to read?  (An end of stream is only seen then.)
    reading = n < 32 or (not client and cap >= 32)
    if w.alive():
        if end == "eof" and n < 320:
            L.sim_feed_eof(w.wire)
            if reading:
                w.doom(HANDSHAKE_FAILED)
            w.run()
        elif end == "reset":
            L.sim_feed_err(w.wire, 104, 1)
            L.sim_set_txerr(w.wire, 32)
            L.sim_set_hup(w.wire, 1)
            w.doom(HANDSHAKE_FAILED)
            w.run()
        elif end == "connfail" and not conn:
            w.connect(111)
        elif end == "drop":
            w.step(("drop",))
    if w.alive():
        w.adv(10**6)
    w.look()
    w.keep.reraise()
    check(len(w.conn.dead) == 1, "the end of the connection was reported %d times", len(w.conn.dead))
    L.sim_set_txcap(w.wire, 1 << 20)
    w.run(10**7 * MS)
    check(len(w.conn.dead) == 1, "the end of the connection was reported %d times", len(w.conn.dead))
    p = L.problems()
    check(not p, "misuse of a descriptor: %s", p.strip())
    check(L.sim_nopen() == 0, "%d sockets are still open after the connection ended", L.sim_nopen())
    return w, n, reading


def srun(case):
    L = sim.load()
    world.secret(L, b"life")
    live = []
    w = None
    try:
        for rep in range(3):
            sim.fresh_sim(L, case["io"], case["misc"], case["seed"])
            L.sim_alloc_track = 1
            w, n, reading = sonce(L, case)
            live.append(L.sim_alloc_live)
    finally:
        L.sim_alloc_track = 0
        if w is not None and not w.conn.dead:
            w.conn.drop()
    check(live[2] == live[1], "each connection leaves %d blocks of memory behind", live[2] - live[1])
    return dict(nontrivial=case["cap"] < 32 or n >= 32, classes=["end-%s" % NAMES[w.conn.dead[0]].replace(" ", "-"), "writing" + ("+reading" if reading else "")])


# --- data which is waiting to be written when the connection ends ------------------
def bstrat(tier):
    return st.fixed_dictionaries(dict(role=st.sampled_from(["client", "server"]), pfs=st.just(0), nokeep=st.just(False), timeo=st.just(1000), naddrs=st.just(1),
                                      sink=st.sampled_from(["plain", "wire"]), cap=st.sampled_from([0, 1, 100, 1059, 1060, 1061]), fed=st.lists(st.integers(1, 1024), min_size=1, max_size=6),
                                      back=st.integers(0, 2), backeof=st.booleans(), eof=st.booleans(), wait=st.sampled_from([0, 1, 5000]), drain=st.booleans(),
                                      end=st.sampled_from(["drop", "reset-sink", "bad", "none"]), io=gen.io_tape, misc=gen.misc_tape, seed=gen.seed))


def bonce(L, case):
    w = One(L, case, case["seed"])
    w.run()
    w.connect(0)
    w.hs(320)
    w.hs(320)
    check(w.up() and not w.conn.dead, "the connection did not come up")
    w.adv(1)
    sink, src = case["sink"], "wire" if case["sink"] == "plain" else "plain"
    ep, other = getattr(w, sink), getattr(w, src)
    tot = sum(case["fed"])
    cap = case["cap"] if sink == "plain" else min(case["cap"], 1059)
    blocked = (tot if sink == "plain" else 1060) > cap
    L.sim_set_txcap(ep, cap)
    w.pull = lambda: None
    # Something to write which does not fit.
    for n in case["fed"]:
        L.feed(other, bytes(n) if src == "plain" else w.keys.seal(bytes(n)))
    if case["eof"]:
        L.sim_feed_eof(other)
    w.run()
    # The other direction carries on, or ends.
    mine = w.keys if sink == "wire" else None
    for _ in range(case["back"]):
        L.feed(ep, mine.seal(b"x" * 9) if mine else b"x" * 9)
    if case["backeof"]:
        L.sim_feed_eof(ep)
        if case["eof"] and not blocked:
            w.doom(CLOSED)
    w.run()
    w.adv(case["wait"])
    end = case["end"]
    if w.alive() and case["drain"] and blocked:
        del w.pull
        L.sim_set_txcap(ep, 1 << 20)
        if case["eof"] and case["backeof"]:
            w.doom(CLOSED)
        w.run()
        blocked = False
    if w.alive():
        if end == "reset-sink":
            L.sim_feed_err(ep, 104, 1)
            L.sim_set_txerr(ep, 32)
            L.sim_set_hup(ep, 1)
            # (After the end of both streams in this direction only the write remains.)
            if blocked or not case["backeof"]:
                w.doom(ERROR)
            w.run()
        elif end == "bad" and w.wire is not None and not (case["eof"] if src == "wire" else case["backeof"]) and not (src == "wire" and blocked):
            L.feed(w.wire, bytes(1060))
            w.doom(ERROR)
            w.run()
        if w.alive():
            w.step(("drop",))
    w.look()
    w.keep.reraise()
    check(len(w.conn.dead) == 1, "the end of the connection was reported %d times", len(w.conn.dead))
    L.sim_set_txcap(ep, 1 << 20)
    w.run(10**7 * MS)
    check(len(w.conn.dead) == 1, "the end of the connection was reported %d times", len(w.conn.dead))
    p = L.problems()
    check(not p, "misuse of a descriptor: %s", p.strip())
    check(L.sim_nopen() == 0, "%d sockets are still open after the connection ended", L.sim_nopen())
    return w, blocked


def brun(case):
    L = sim.load()
    world.secret(L, b"life")
    live = []
    w = None
    try:
        for rep in range(3):
            sim.fresh_sim(L, case["io"], case["misc"], case["seed"])
            L.sim_alloc_track = 1
            w, blocked = bonce(L, case)
            live.append(L.sim_alloc_live)
    finally:
        L.sim_alloc_track = 0
        if w is not None and not w.conn.dead:
            w.conn.drop()
    check(live[2] == live[1], "each connection leaves %d blocks of memory behind", live[2] - live[1])
    return dict(nontrivial=blocked, classes=["end-%s" % NAMES[w.conn.dead[0]].replace(" ", "-")] + (["blocked"] if blocked else []))


TARGETS = [Target("blocked", bstrat, brun, "data was waiting to be written when the connection ended", quick=(3, 500, 8), thorough=(4, 10000, 100)),
           Target("stalled", sstrat, srun, "a part of its own side of the handshake could not be sent", quick=(3, 500, 8), thorough=(4, 10000, 100)),
           Target("history", strat, run, "a history of at least one step ended other than by the driver dropping the connection", quick=(8, 1500, 16), thorough=(8, 20000, 300))]
