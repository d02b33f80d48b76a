"""A simulated spiped pair: user <-> client <-> wire <-> server <-> backend.

Both ends are the repository's real connection code, running in one event loop
over the virtual sockets of simk.c; everything else (user, backend, wire,
clock) is driven by the case.
"""
import ctypes as C
import hashlib, os
from . import sim
from .core import Violation, check
from .sim import CB_VI, SEC

CLOSED, CANCELLED, CONNECT_FAILED, HANDSHAKE_FAILED, ERROR = range(5)
_pat = {}


def pattern(tag, start, n):
    """n bytes of the deterministic byte stream `tag`, from offset start."""
    p = _pat.get(tag)
    if p is None or len(p) < start + n:
        need = max(start + n, 1 << 17)
        p = hashlib.shake_128(b"vf" + tag.encode()).digest(need)
        _pat[tag] = p
    return p[start:start + n]


_keys = {}


def keyfile(data):
    h = hashlib.sha256(data).hexdigest()[:16]
    path = os.path.join(os.environ.get("VF_TMP", "/tmp"), "key-" + h)
    if not os.path.exists(path):
        with open(path, "wb") as f:
            f.write(data)
    return path


def secret(L, data):
    k = _keys.get((id(L), data))
    if k is None:
        k = L.proto_crypt_secret(keyfile(data).encode())
        if not k:
            raise Violation("proto_crypt_secret failed on a readable key file of %d bytes" % len(data))
        _keys[(id(L), data)] = k
    return k


class Conn:
    """One proto_conn and what is known about it."""

    def __init__(self, w, name, decr, key, nopfs=0, reqpfs=0, nokeep=0, timeo=3600.0, naddrs=1, in_ep=None, bind=None, fam=4):
        L = self.L = w.L
        self.w, self.name, self.decr = w, name, decr
        self.dead = []          # reasons passed to callback_dead
        self.dead_time = None
        self.t0 = L.sim_now
        self.in_ep = in_ep if in_ep is not None else L.sim_new_stream()
        L.sim_set_nonblock(self.in_ep, 0)   # accepted sockets block on Linux
        self.nconn0 = L.sim_nconnects()
        self.out_eps = []
        self.targets = ["[10.0.%d.%d]:%d" % (decr + 1, i + 1, 4000 + i) if fam == 4 else "[2001:db8::%x]:%d" % (i + 1, 4000 + i)
                        for i in range(naddrs)]
        self.sas = sim.addrlist(L, self.targets) if naddrs else sim.addrlist(L, [])
        self.cookie = None
        self.bind = bind
        self._cb = w.keep.cb(CB_VI, self._dead)
        self.rc = L.proto_conn_create(L.sim_fd(self.in_ep), self.sas, bind, decr, nopfs, reqpfs, nokeep,
                                      secret(L, key), timeo, self._cb, None)
        if not self.rc:
            raise Violation("%s: connection setup failed although nothing went wrong" % name)
        self.cookie = self.rc

    def _dead(self, _c, reason):
        self.dead.append(reason)
        if len(self.dead) > 1:
            raise Violation("%s: reported dead %d times" % (self.name, len(self.dead)))
        self.dead_time = self.L.sim_now
        self.cookie = None
        return 0

    def connects(self):
        """Endpoints this connection has created by connecting, in order."""
        out = []
        for i in range(self.nconn0, self.L.sim_nconnects()):
            ep = self.L.sim_connect_ep(i)
            a = sim.inet_of(self.L.peer(ep))
            if a and a[1].startswith("10.0.%d." % (self.decr + 1)) or (a and a[0] == "6"):
                out.append(ep)
        return out

    def out_ep(self):
        c = self.connects()
        return c[-1] if c else None

    def drop(self):
        if self.cookie is not None:
            self.L.proto_conn_drop(self.cookie, CANCELLED)


class Pair:
    def __init__(self, L, key_c=b"k", key_s=b"k", c=None, s=None, io=b"", misc=b"", fresh=True, seed=1):
        self.L = L
        self.keep = sim.Keep()
        if fresh:
            sim.fresh_sim(L, io, misc, seed)
        self.copt = dict(c or {})
        self.sopt = dict(s or {})
        self.key_c, self.key_s = key_c, key_s
        self.sent = {"u": 0, "x": 0}        # bytes sent by user / backend
        self.got = {"u": b"", "x": b""}     # bytes delivered to them
        self.eof = {"u": False, "x": False}
        self.c2s, self.s2c = bytearray(), bytearray()       # on the wire, undelivered
        self.c2s_log, self.s2c_log = bytearray(), bytearray()   # everything sent by the ends
        self.c2s_off = self.s2c_off = 0
        self.client = Conn(self, "client", 0, key_c, **self.copt)
        self.server = None
        self.eps = {"u": self.client.in_ep}
        self.connected = {"t": False, "x": False}
        self.wire_eof = {"t": False, "s": False}     # EOF forwarded to
        self.fault = False

    # -- driving -----------------------------------------------------------
    def run(self, ns=0):
        rc = self.L.sim_run(self.L.sim_now + ns)
        self.keep.reraise()
        check(rc == 0, "the event loop was stopped with status %d (this ends the daemon)", rc)
        check(not self.L.sim_livelock, "the event loop spins without making progress")
        self.collect()

    def collect(self):
        """Move what the ends have sent onto the wire."""
        L = self.L
        if "t" in self.eps:
            b = L.take(self.eps["t"])
            self.c2s += b
            self.c2s_log += b
        if "s" in self.eps:
            b = L.take(self.eps["s"])
            self.s2c += b
            self.s2c_log += b

    def connect_t(self):
        """Complete the client's connection to the server."""
        if self.connected["t"]:
            return
        if self.client.dead:
            return
        ep = self.client.out_ep()
        if ep is None:
            return
        self.L.sim_connect_done(ep, 0)
        self.connected["t"] = True
        self.eps["t"] = ep
        self.server = Conn(self, "server", 1, self.key_s, **self.sopt)
        self.eps["s"] = self.server.in_ep

    def connect_x(self):
        if self.connected["x"] or self.server is None or self.server.dead:
            return
        ep = self.server.out_ep()
        if ep is None:
            return
        self.L.sim_connect_done(ep, 0)
        self.connected["x"] = True
        self.eps["x"] = ep

    def user_send(self, who, n):
        """who = 'u' (user) or 'x' (backend)."""
        if self.eof[who] or who not in self.eps:
            return 0
        if self.L.sim_closed(self.eps[who]):
            return 0
        self.L.feed(self.eps[who], pattern(who, self.sent[who], n))
        self.sent[who] += n
        return n

    def user_eof(self, who):
        if who not in self.eps or self.eof[who] or self.L.sim_closed(self.eps[who]):
            return False
        self.eof[who] = True
        self.L.sim_feed_eof(self.eps[who])
        return True

    def deliver(self, direction, n=None):
        """Deliver n bytes (default all) of what is on the wire."""
        q = self.c2s if direction == "c2s" else self.s2c
        dst = "s" if direction == "c2s" else "t"
        src = "t" if direction == "c2s" else "s"
        if dst not in self.eps:
            return 0
        L = self.L
        n = len(q) if n is None else min(n, len(q))
        if n and not L.sim_closed(self.eps[dst]):
            L.feed(self.eps[dst], bytes(q[:n]))
        del q[:n]
        # The sender's shutdown or close becomes visible after its data.
        if not q and not self.wire_eof[dst] and src in self.eps and L.sim_tx_avail(self.eps[src]) == 0 and \
                (L.sim_shutwr(self.eps[src]) or L.sim_closed(self.eps[src])):
            self.wire_eof[dst] = True
            if not L.sim_closed(self.eps[dst]):
                L.sim_feed_eof(self.eps[dst])
        # Data sent to a peer which has closed provokes a reset, which
        # overtakes whatever was on its way in the other direction.
        if n and L.sim_closed(self.eps[dst]) and src in self.eps and not L.sim_closed(self.eps[src]):
            (self.s2c if direction == "c2s" else self.c2s).clear()
            self.wire_eof[src] = True
            L.sim_set_txerr(self.eps[src], 32)
            L.sim_set_hup(self.eps[src], 1)
            L.sim_feed_eof(self.eps[src])
        return n

    def read_out(self, who, n=None):
        """User/backend reads n bytes of what was sent to it."""
        if who not in self.eps:
            return b""
        b = self.L.take(self.eps[who], n if n is not None else 1 << 30)
        self.got[who] += b
        return b

    # -- oracles ---------------------------------------------------------------
    def check_prefix(self):
        for who, src in (("x", "u"), ("u", "x")):
            g = self.got[who]
            check(len(g) <= self.sent[src] and g == pattern(src, 0, len(g)),
                  "bytes delivered to %s (%d so far) are not a prefix of what %s sent (%d)",
                  {"x": "the backend", "u": "the user"}[who], len(g), {"x": "the backend", "u": "the user"}[src], self.sent[src])

    def settle(self, rounds=400, ns=0):
        """Deliver everything until nothing changes."""
        for i in range(rounds):
            self.run(ns)
            before = (len(self.c2s_log), len(self.s2c_log), len(self.got["u"]), len(self.got["x"]), self.L.sim_neps(),
                      self.L.sim_nopen(), self.wire_eof["s"], self.wire_eof["t"], self.connected["t"], self.connected["x"])
            self.connect_t()
            self.connect_x()
            self.run(0)
            self.deliver("c2s")
            self.deliver("s2c")
            self.run(0)
            self.read_out("u")
            self.read_out("x")
            self.run(0)
            after = (len(self.c2s_log), len(self.s2c_log), len(self.got["u"]), len(self.got["x"]), self.L.sim_neps(),
                     self.L.sim_nopen(), self.wire_eof["s"], self.wire_eof["t"], self.connected["t"], self.connected["x"])
            if before == after and not self.c2s and not self.s2c and i > 2:
                return
        raise Violation("no quiescence after %d rounds" % rounds)

    def close(self):
        """End of case: drop whatever is left, so that cases are independent."""
        for c in (self.client, self.server):
            if c is not None and not c.dead:
                c.drop()
        self.keep.reraise()

    def check_clean(self):
        L = self.L
        p = L.problems()
        check(not p, "misuse of a descriptor: %s", p.strip())
        for c in (self.client, self.server):
            if c is not None:
                check(len(c.dead) == 1, "%s: reported dead %d times", c.name, len(c.dead))
        check(L.sim_nopen() == 0, "%d sockets are still open after all connections ended", L.sim_nopen())
