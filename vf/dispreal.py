"""The same three properties as vf/disp.py with real spiped processes over loopback
TCP and UNIX sockets."""
import select, signal, socket, struct, time
from hypothesis import strategies as st
from . import procs, world, gen
from .core import Violation, check

SLOW = procs.SCALE


class User:
    def __init__(self, i, s):
        self.i, self.s, self.x = i, s, None
        self.nu = self.nx = 0


class Net:
    """A chain of two daemons with -n on one of them, and the model's queue."""

    def __init__(self, ch, limit, where):
        self.ch, self.limit, self.where = ch, limit, where
        self.active, self.queue, self.n = [], [], 0
        self.waited = 0

    def open(self):
        u = User(self.n, self.ch.connect())
        self.n += 1
        u.s.sendall(struct.pack(">I", u.i))
        self.queue.append(u)
        self.promote()

    def promote(self):
        while self.queue and len(self.active) < self.limit:
            u = self.queue.pop(0)
            u.x = self.ch.accept()
            d, how = procs.recv_all(u.x, 4)
            check(len(d) == 4, "connection %d ended (%s) although nothing was wrong", u.i, how)
            i = struct.unpack(">I", d)[0]
            check(i == u.i, "connection %d is served before connection %d which arrived earlier", i, u.i)
            self.active.append(u)
        if self.queue:
            self.waited += 1

    def none_more(self, secs=0.03):
        r, _, _ = select.select([self.ch.back], [], [], secs)
        check(not r, "a connection is served beyond the limit of %s", self.limit)

    def talk(self, u, n):
        for a, b, tag in ((u.s, u.x, "u%d"), (u.x, u.s, "x%d")):
            d = world.pattern(tag % u.i, 0, n)
            a.sendall(d)
            g, how = procs.recv_all(b, n)
            check(g == d, "connection %d: %d bytes sent, %d received (%s)", u.i, n, len(g), how)

    def close(self, u, how):
        if how == 0:
            a, b = u.s, u.x
        else:
            a, b = u.x, u.s
        a.shutdown(socket.SHUT_WR)
        g, h = procs.recv_all(b)
        check(g == b"" and h == "eof", "connection %d: %d bytes and %s instead of the end of the stream", u.i, len(g), h)
        b.shutdown(socket.SHUT_WR)
        g, h = procs.recv_all(a)
        check(g == b"" and h == "eof", "connection %d: %d bytes and %s instead of the end of the stream", u.i, len(g), h)
        u.s.close()
        u.x.close()
        self.active.remove(u)
        self.promote()


# --- C21 -----------------------------------------------------------------------
def limit_strategy(tier):
    return st.fixed_dictionaries(dict(
        n=st.sampled_from([1, 1, 2, 2, 3, 5, 0, None]), where=st.sampled_from(["e", "d"]), unix=st.booleans(),
        ops=st.lists(st.one_of(st.tuples(st.just("open"), st.integers(1, 3)), st.tuples(st.just("close"), st.integers(0, 9), st.integers(0, 1)),
                               st.tuples(st.just("talk"), st.integers(0, 9), st.sampled_from([1, 100, 3000]))), min_size=4, max_size=14)))


def limit_run(case):
    n = case["n"]
    lim = {None: 100, 0: 10**9}.get(n, n)
    fl = [] if n is None else ["-n", str(n)]
    cf, sf = (fl, ["-n", "0"]) if case["where"] == "e" else (["-n", "0"], fl)
    with procs.Chain(cf, sf, case["unix"]) as ch:
        net = Net(ch, lim, case["where"])
        if n in (None, 0):
            # More than the default limit.
            for _ in range(101 if n is None else 104):
                net.open()
        for op in case["ops"]:
            if op[0] == "open":
                for _ in range(op[1]):
                    if len(net.queue) < 8:
                        net.open()
            elif net.active:
                u = net.active[op[1] % len(net.active)]
                if op[0] == "talk":
                    net.talk(u, op[2])
                else:
                    net.close(u, op[2])
        net.none_more()
        if n not in (None, 0):
            while net.active:
                net.close(net.active[0], 0)
                net.none_more(0.003)
            check(not net.queue, "harness: queue not empty")
        check(ch.alive(), "a daemon exited by itself: %s", ch.status())
        return dict(nontrivial=net.waited > 0 or n == 0, classes=["n=%s" % n, case["where"]])


# --- C22 -----------------------------------------------------------------------
def shutdown_strategy(tier):
    return st.fixed_dictionaries(dict(
        who=st.sampled_from(["e", "d"]), unix=st.booleans(), pre=st.integers(0, 3), half=st.booleans(), ended=st.integers(0, 2),
        delay=st.sampled_from([0, 0.4, 1.2, 2.3]), order=st.integers(0, 1), late=st.booleans(), wait=st.sampled_from([1.15, 1.3]), n=st.sampled_from([1, 3])))


def shutdown_run(case):
    with procs.Chain(["-n", "20"], ["-n", "20"], case["unix"]) as ch:
        net = Net(ch, 20, None)
        for _ in range(case["pre"] + case["ended"]):
            net.open()
        for _ in range(case["ended"]):
            net.close(net.active[0], case["order"])
        for u in net.active:
            net.talk(u, 700)
        if case["half"] and net.active:
            u = net.active[-1]
            (u.s if case["order"] == 0 else u.x).shutdown(socket.SHUT_WR)
        time.sleep(case["delay"])
        p = ch.e if case["who"] == "e" else ch.d
        t0 = time.monotonic()
        p.send_signal(signal.SIGTERM)
        if net.active:
            # The flag is looked at once per second.
            time.sleep(case["wait"])
            check(p.poll() is None, "the daemon exited (status %s) while connections were open", p.returncode)
            late = []
            if case["late"]:
                for _ in range(case["n"]):
                    try:
                        s = ch.connect()
                        s.sendall(b"late")
                        late.append(s)
                    except OSError:
                        pass
                r, _, _ = select.select([ch.back], [], [], 0.1)
                check(not r, "a connection which arrived after shutdown was requested is served")
            rest = [u for u in net.active if not (case["half"] and u is net.active[-1])]
            for u in rest:
                net.talk(u, 5000)
            if case["half"]:
                u = net.active[-1]
                a, b = (u.s, u.x) if case["order"] == 0 else (u.x, u.s)
                b.sendall(b"still here")
                g, _ = procs.recv_all(a, 10)
                check(g == b"still here", "data was lost after shutdown was requested")
                b.shutdown(socket.SHUT_WR)
                procs.recv_all(a)
                a.close(), b.close()
                net.active.remove(u)
            net.queue = []
            for u in list(net.active):
                check(p.poll() is None, "the daemon exited (status %s) while connections were open", p.returncode)
                net.close(u, case["order"])
        try:
            rc = p.wait(3 * SLOW)
        except Exception:
            raise Violation("the daemon did not exit after shutdown was requested and its last connection ended")
        check(rc == 0, "the daemon exited with status %d after a requested shutdown: %s", rc, ch.err(p))
        q = ch.d if case["who"] == "e" else ch.e
        check(q.poll() is None, "the other daemon exited: %s", ch.status())
    return dict(nontrivial=case["pre"] > 0, classes=["active%d" % case["pre"], "half" if case["half"] and case["pre"] else "whole"])


# --- C23 -----------------------------------------------------------------------
def isolation_strategy(tier):
    bad = st.one_of(
        st.tuples(st.just("garbage"), st.sampled_from(["e", "d"]), st.sampled_from([1, 31, 32, 64, 320, 1380, 20000]), gen.seed),
        st.tuples(st.just("close"), st.sampled_from(["e", "d"]), st.integers(0, 1), st.integers(0, 100)),
        st.tuples(st.just("reset"), st.sampled_from(["e", "d"]), st.integers(0, 400), st.booleans()),
        st.tuples(st.just("backreset"), st.booleans(), st.integers(0, 3000), st.just(0)),
        st.tuples(st.just("userreset"), st.booleans(), st.integers(0, 3000), st.just(0)),
        st.tuples(st.just("flood"), st.sampled_from(["u", "x"]), st.just(0), st.just(0)),
        st.tuples(st.just("idle"), st.sampled_from(["e", "d"]), st.just(0), st.just(0)))
    return st.fixed_dictionaries(dict(unix=st.booleans(), good=st.integers(1, 3), bad=st.lists(bad, min_size=1, max_size=8), opts=st.sampled_from([[], [], ["-f"], ["-j"]])))


def raw(ch, side):
    """A connection straight to one daemon's listening socket."""
    addr = ch.listen_addr if side == "e" else ch.mid_addr
    if ch.unix:
        s = socket.socket(socket.AF_UNIX)
        s.connect(addr)
    else:
        s = socket.create_connection(("127.0.0.1", int(addr.rsplit(":", 1)[1])))
    ch.socks.append(s)
    return s


def rst(s):
    if s.family == socket.AF_INET:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    s.close()


def put(s, b):
    try:
        s.sendall(b)
        return True
    except OSError:
        return False


def isolation_run(case):
    with procs.Chain(["-n", "0"] + case["opts"], ["-n", "0"], case["unix"]) as ch:
        net = Net(ch, 10**9, None)
        for _ in range(case["good"]):
            net.open()

        def skip(f):
            """Take up the connections which reach the backend on behalf of a bad peer."""
            got = None
            end = time.monotonic() + 5 * SLOW
            while time.monotonic() < end:
                r, _, _ = select.select([ch.back], [], [], 0.05)
                if r:
                    x, _ = ch.back.accept()
                    ch.socks.append(x)
                    got = x
                    if f:
                        return x
                elif not f:
                    return got
            raise Violation("a connection did not reach the backend")
        for op in case["bad"]:
            k = op[0]
            if k == "garbage":
                s = raw(ch, op[1])
                put(s, world.pattern("g%d" % op[3], 0, op[2]))
                if op[1] == "d":
                    skip(True)
            elif k == "close":
                s = raw(ch, op[1])
                put(s, b"a" * op[3])
                s.shutdown(socket.SHUT_WR)
                if op[2]:
                    s.close()
                if op[1] == "d":
                    skip(False)
            elif k == "reset":
                s = raw(ch, op[1])
                put(s, b"r" * op[2])
                if op[3]:
                    time.sleep(0.01)
                rst(s)
            elif k in ("backreset", "userreset"):
                s = ch.connect()
                x = skip(True)
                put(s, b"b" * op[2])
                put(x, b"c" * op[2])
                if op[1]:
                    time.sleep(0.01)
                rst(x if k == "backreset" else s)
                put(s if k == "backreset" else x, b"more") if k == "backreset" or op[1] else None
            elif k == "flood":
                s = ch.connect()
                x = skip(True)
                a = s if op[1] == "u" else x
                a.setblocking(False)
                try:
                    for _ in range(200):
                        a.send(b"f" * 65536)
                except OSError:
                    pass
            else:
                raw(ch, op[1])
                if op[1] == "d":
                    skip(True)
            for u in net.active:
                net.talk(u, 300)
        skip(False)
        check(ch.alive(), "a daemon was ended by a peer: %s", ch.status())
        for u in net.active:
            net.talk(u, 4000)
        # A new connection is still served.
        s = ch.connect()
        put(s, b"new!")
        ok = False
        for _ in range(30):
            x = skip(True)
            # Leftovers of bad peers may arrive first; they carry nothing or end.
            r, _, _ = select.select([x], [], [], 2 * SLOW)
            if r:
                try:
                    g = x.recv(4)
                except OSError:
                    g = b""
                if g == b"new!":
                    ok = True
                    break
        check(ok, "a new connection is not served any more")
        for u in list(net.active):
            net.close(u, 0)
        check(ch.alive(), "a daemon was ended by a peer: %s", ch.status())
    return dict(nontrivial=True, classes=[op[0] for op in case["bad"]])
