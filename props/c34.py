"""C34: a receiver which does not read holds back its sender; nothing piles up inside."""
import os, select, socket, subprocess, time
from hypothesis import strategies as st
from vf import gen, peer, procs, ref, sim, world
from vf.core import Target, check

HOLD = 65536        # bytes of one direction kept inside (the code needs a few kB)
MEM = 262144        # memory for one connection


class H:
    def __init__(self, case):
        self.case = case
        L = self.L = sim.load()
        self.role = case["role"]
        world.secret(L, b"hold")
        self.got = {"plain": 0, "wire": 0}
        self.sent = {"plain": 0, "wire": 0}
        self.stall = {"plain": False, "wire": False}
        self.opened, self.rest = 0, b""
        self.sizes, self.sidx, self.spos = [], 0, 0
        self.held = False
        self.maxmem = 0
        self.feeds = 0

    # -- before the handshake is complete
    def early(self):
        """Whoever sends early is not read from without bound."""
        L, c = self.L, self.case
        sim.fresh_sim(L, c["io"], c["misc"], c["seed"])
        L.sim_alloc_track = 1
        base = L.sim_alloc_bytes
        o = self.o = peer.One(L, self.role, b"hold", nopfs=1, io=c["io"], misc=c["misc"], seed=c["seed"], fresh=False)
        stage, n = c["early"]
        if self.role == "client":
            self.sent["plain"] = n
            L.feed(o.plain, world.pattern("hp", 0, n))
            o.run()
            check(L.sim_rx_read(o.plain) <= HOLD, "%d bytes were read from the sender before the handshake was complete", L.sim_rx_read(o.plain))
        elif stage == "junk":
            # More than a handshake from somebody who is not the peer.
            L.feed(o.wire, world.pattern("hj", 0, n))
            o.run()
            check(L.sim_rx_read(o.wire) <= HOLD, "%d bytes were read from a peer which had not completed its handshake", L.sim_rx_read(o.wire))
            check(L.sim_alloc_bytes - base <= MEM, "%d bytes of memory are held for a connection which has sent %d bytes of nonsense", L.sim_alloc_bytes - base, n)
            o.end()
            return False
        self.snd, self.rcv = o.handshake(ref.sha256(b"n%d" % c["seed"]), None, more=True)
        self.rest = bytes(o.sent[320:])
        self.unpack()
        if self.role == "server":
            # The target is not connected yet.
            self.flood("wire", [1024] * (n // 1024))
            o.run()
            r = L.sim_rx_read(o.wire)
            check(r <= 320 + HOLD, "%d bytes were read from the peer before the target was connected", r)
            o.connect_plain()
        self.base, self.blocks = L.sim_alloc_bytes, L.sim_alloc_live
        self.take("plain", 1 << 30)
        return True

    def flood(self, side, sizes):
        L, o = self.L, self.o
        if side == "plain":
            for n in sizes:
                L.feed(o.plain, world.pattern("hp", self.sent["plain"], n))
                self.sent["plain"] += n
        else:
            b = bytearray()
            for n in sizes:
                n = min(n, 1024)
                b += self.snd.seal(world.pattern("hw", self.sent["wire"], n))
                self.sent["wire"] += n
                self.sizes.append(n)
            L.feed(o.wire, bytes(b))

    def take(self, side, n):
        L, o = self.L, self.o
        ep = o.plain if side == "plain" else o.wire
        b = L.take(ep, n)
        if side == "plain":
            check(b == world.pattern("hw", self.got["plain"], len(b)), "the bytes delivered are not those which were sent")
            self.got["plain"] += len(b)
        else:
            self.rest += b
            self.unpack()
        if self.stall[side]:
            L.sim_set_txcap(ep, L.sim_tx_avail(ep))
        return len(b)

    def unpack(self):
        while len(self.rest) >= 1060:
            p = self.rcv.open(self.rest[:1060])
            check(p is not None, "a packet is not what the documented format prescribes")
            self.rest = self.rest[1060:]
            check(p[0] == world.pattern("hp", self.got["wire"], len(p[0])), "a packet carries other bytes than were sent")
            self.got["wire"] += len(p[0])

    def block(self, side, room):
        L, o = self.L, self.o
        ep = o.plain if side == "plain" else o.wire
        self.stall[side] = True
        L.sim_set_txcap(ep, L.sim_tx_avail(ep) + room)

    def free(self, side):
        ep = self.o.plain if side == "plain" else self.o.wire
        self.stall[side] = False
        self.L.sim_set_txcap(ep, 1 << 30)

    def look(self):
        L, o = self.L, self.o
        o.run()
        check(not o.conn.dead, "the connection ended (%s) although nothing but waiting happened", o.conn.dead)
        # Towards the wire: what sits in the socket has left.
        npk = (L.sim_tx_len(o.wire) - 320) // 1060
        inside = L.sim_rx_read(o.plain) - self.got["wire"] - 1024 * (L.sim_tx_avail(o.wire) // 1060 + 2)
        check(inside <= HOLD, "%d bytes have been read and not sent on as packets", inside)
        out = self.got["plain"] + L.sim_tx_avail(o.plain)
        while self.sidx < len(self.sizes) and self.spos + self.sizes[self.sidx] <= out:
            self.spos += self.sizes[self.sidx]
            self.sidx += 1
        inside = L.sim_rx_read(o.wire) - 320 - 1060 * (self.sidx + 1)
        check(inside <= HOLD, "%d bytes of packets have been read and not delivered", inside)
        mem = L.sim_alloc_bytes - self.base
        self.maxmem = max(self.maxmem, mem)
        check(mem <= MEM, "%d bytes of memory are held for one connection", mem)
        for side, other in (("plain", "wire"), ("wire", "plain")):
            ep = o.plain if side == "plain" else o.wire
            if L.sim_rx_unread(ep):
                self.held = True
                check(self.stall[other], "%d bytes wait to be read although the receiver takes everything", L.sim_rx_unread(ep))
        if not self.stall["wire"]:
            pass

    def flow(self, side):
        """A receiver which reads gets everything."""
        for _ in range(100000):
            self.o.run()
            if not self.take(side, 1 << 30):
                break
        want = self.sent["wire" if side == "plain" else "plain"]
        check(self.got[side] == want, "the receiver reads all there is but got %d of %d bytes", self.got[side], want)

    def run(self):
        L = self.L
        try:
            if not self.early():
                return dict(nontrivial=True, classes=["early-junk"])
            o = self.o
            o.sent, o.got = bytearray(), bytearray()
            self.look()
            for op in self.case["ops"]:
                if op[0] == "flood":
                    self.flood(op[1], [op[2]] * op[3])
                elif op[0] == "block":
                    self.block(op[1], op[2])
                elif op[0] == "free":
                    self.free(op[1])
                    self.look()
                    self.flow(op[1])
                elif op[0] == "take":
                    self.take(op[1], op[2])
                elif op[0] == "idle":
                    o.run()
                    a, b = L.sim_nrecv(o.plain), L.sim_nrecv(o.wire)
                    o.run(op[1] * 10**9)
                    check((a, b) == (L.sim_nrecv(o.plain), L.sim_nrecv(o.wire)), "sockets are read although nobody sent anything")
                self.look()
            for side in ("plain", "wire"):
                self.free(side)
            self.look()
            for side in ("plain", "wire"):
                self.flow(side)
            self.look()
            check(L.sim_alloc_live - self.blocks <= 64, "%d more blocks of memory are held after everything has been passed on", L.sim_alloc_live - self.blocks)
            o.end()
        finally:
            L.sim_alloc_track = 0
        cl = [self.role]
        if self.held:
            cl.append("held-back")
        return dict(nontrivial=self.held, classes=cl)


def run(case):
    return H(case).run()


def strat(tier):
    side = st.sampled_from(["plain", "wire"])
    big = 400 if tier == "thorough" else 150
    op = st.one_of(st.tuples(st.just("flood"), side, st.sampled_from([1, 7, 1023, 1024, 1024]), st.integers(1, big)),
                   st.tuples(st.just("flood"), side, st.integers(1, 1024), st.integers(1, big)),
                   st.tuples(st.just("block"), side, st.sampled_from([0, 0, 1, 1059, 1060, 5000])),
                   st.tuples(st.just("block"), side, st.sampled_from([0, 0, 1, 1059, 1060, 5000])),
                   st.tuples(st.just("free"), side), st.tuples(st.just("take"), side, st.sampled_from([1, 500, 1060, 4240, 100000])),
                   st.tuples(st.just("idle"), st.integers(1, 100)))
    n = 30 if tier == "thorough" else 12
    return st.fixed_dictionaries(dict(role=st.sampled_from(["client", "server"]), io=gen.io_tape, misc=gen.misc_tape, seed=gen.seed,
                                      early=st.tuples(st.sampled_from(["", "", "", "junk"]), st.sampled_from([0, 10, 5000, 200000])),
                                      ops=st.lists(op, min_size=2, max_size=n)))


def enum(tier):
    """Much more than fits, in pieces, at a receiver which has stopped."""
    out = []
    n = 4000 if tier == "thorough" else 700
    for role in ("client", "server"):
        for side, other in (("plain", "wire"), ("wire", "plain")):
            for size in (1024, 1):
                out.append(dict(role=role, io=[], misc=[], seed=1, early=["", 0], ops=[["block", other, 0], ["flood", side, size, n], ["idle", 50], ["flood", side, size, n], ["take", other, 5000],
                                                                                       ["idle", 10], ["flood", other, 1024, 20], ["free", other]]))
        out.append(dict(role=role, io=[], misc=[], seed=1, early=["", 600000], ops=[["idle", 5]]))
    out.append(dict(role="server", io=[], misc=[], seed=1, early=["junk", 600000], ops=[["idle", 5]]))
    return out


# --- the real programs ------------------------------------------------------
def rss(pid):
    """Private memory in use, in kB."""
    with open("/proc/%d/status" % pid) as f:
        for l in f:
            if l.startswith("VmData:"):
                return int(l.split()[1])
    return 0


PUSH = 24 << 20         # tried to push
KERNEL = 12 << 20       # may sit in the buffers of the sockets and pipes on the way
GROW = 8 << 10          # kB


def push(fd, tag, secs=1.0):
    """Write until nothing more is taken for a while."""
    os.set_blocking(fd, False)
    buf = world.pattern(tag, 0, 1 << 16)
    n = 0
    t = time.monotonic()
    while n < PUSH:
        r, w, _ = select.select([], [fd], [], 0.05)
        if w:
            k = 0
            try:
                k = os.write(fd, buf[n % 65536:])
            except BlockingIOError:
                pass
            if k:
                n += k
                t = time.monotonic()
        if time.monotonic() - t > secs:
            break
    return n


def drain(sock, n, tag, done):
    """Read the n bytes pushed, checking them."""
    buf = world.pattern(tag, 0, 1 << 16)
    got = 0
    end = time.monotonic() + 60
    while got < n:
        r, _, _ = select.select([sock], [], [], max(0, end - time.monotonic()))
        check(r, "the receiver reads again but only %d of %d bytes arrive", got, n)
        b = os.read(sock.fileno(), 65536 - got % 65536)
        check(b, "the connection ended after %d of %d bytes", got, n)
        check(b == buf[got % 65536:got % 65536 + len(b)], "other bytes arrive than were sent (after %d)", got)
        got += len(b)


def real_run(case):
    with procs.Chain(case["flags"], [], True) as ch:
        pairs = []
        for i in range(case["n"]):
            u = ch.connect()
            pairs.append((u, ch.accept()))
        a, b = ch.connect(), None
        b = ch.accept()
        a.sendall(b"x")
        check(procs.recv_all(b, 1)[0] == b"x", "a connection does not work")
        m0 = [rss(p.pid) for p in (ch.e, ch.d)]
        tot = []
        for u, x in pairs:
            s = u if case["dir"] == "up" else x
            tot.append(push(s.fileno(), "pu"))
        for p, m in zip((ch.e, ch.d), m0):
            g = rss(p.pid) - m
            check(g < GROW, "a daemon's memory grew by %d kB while receivers were not reading", g)
        for n in tot:
            check(n < KERNEL, "%d bytes were taken from the sender while the receiver read nothing", n)
        # Others go on, also the other way in the same connection.
        a.sendall(b"y")
        check(procs.recv_all(b, 1)[0] == b"y", "another connection does not work while one is blocked")
        for u, x in pairs:
            s, r = (x, u) if case["dir"] == "up" else (u, x)
            s.sendall(b"back")
            check(procs.recv_all(r, 4)[0] == b"back", "the other direction does not work while one is blocked")
        for (u, x), n in zip(pairs, tot):
            drain(x if case["dir"] == "up" else u, n, "pu", None)
        check(ch.alive(), "a daemon exited by itself: %s", ch.status())
    return dict(nontrivial=True, classes=["daemon-" + case["dir"]])


def spipe_run(case):
    with procs.Chain([], [], True, start=True) as ch:
        import subprocess
        i, o = os.pipe(), os.pipe()
        p = ch.spawn([procs.binpath("spipe"), "-t", ch.mid_addr, "-k", ch.key, *case["flags"]], stdin=i[0], stdout=o[1])
        os.close(i[0])
        os.close(o[1])
        try:
            x = ch.accept()
            os.write(i[1], b"x")
            check(procs.recv_all(x, 1)[0] == b"x", "spipe does not work")
            m0 = [rss(q.pid) for q in (p, ch.d)]
            n = push(i[1] if case["dir"] == "up" else x.fileno(), "pu")
            for q, m in zip((p, ch.d), m0):
                g = rss(q.pid) - m
                check(g < GROW, "memory grew by %d kB while the receiver was not reading", g)
            check(n < KERNEL, "%d bytes were taken from the sender while the receiver read nothing", n)
            r = os.fdopen(o[0], "rb", 0, closefd=False)
            if case["dir"] == "up":
                x.sendall(b"back")
                check(procs.recv_all_fd(r, 4) == b"back", "the other direction does not work while one is blocked")
                drain(x, n, "pu", None)
            else:
                os.write(i[1], b"back")
                check(procs.recv_all(x, 4)[0] == b"back", "the other direction does not work while one is blocked")
                drain(r, n, "pu", None)
        finally:
            for fd in (i[1], o[0]):
                os.close(fd)
    return dict(nontrivial=True, classes=["spipe-" + case["dir"]])


def real_strat(tier):
    return st.fixed_dictionaries(dict(what=st.sampled_from(["daemon", "spipe"]), dir=st.sampled_from(["up", "down"]), n=st.integers(1, 3), flags=st.sampled_from([[], ["-f"], ["-j"]])))


def real_enum(tier):
    return [dict(what=w, dir=d, n=1, flags=["-f"]) for w in ("daemon", "spipe") for d in ("up", "down")]


def real(case):
    return daemon(case) if case["what"] == "daemon" else spipe_run(case)


daemon = real_run
BINS = ("plain",)
TARGETS = [Target("hold", strat, run, "bytes were left with a sender because the receiver did not read (or a stranger sent too much)", quick=(6, 400, 16), thorough=(8, 15000, 300), enum=enum, case_timeout=60),
           Target("real", real_strat, real, "a sender was held back by real processes", quick=(2, 3, 16), thorough=(4, 200, 200), lib=None, enum=real_enum, case_timeout=150)]
ASSUMPTIONS = ["what the kernel buffers in UNIX sockets and pipes is less than 12 MB"]
