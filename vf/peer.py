"""An independent spiped peer (vf/ref.py only), talking to one real connection."""
import os
from . import ref, sim, world
from .core import Violation, check


class One:
    """One proto_conn with its handshake-side socket driven by an independent peer.

    role 'client': the code under test encrypts (-e); the peer is the server and
    owns the connection it makes.  role 'server': the code under test decrypts
    (-d); the peer is the client and owns its incoming connection.
    """

    def __init__(self, L, role, key=b"k", nopfs=0, reqpfs=0, io=b"", misc=b"", seed=1, timeo=3600.0, fresh=True, nokeep=0):
        self.L, self.role, self.key = L, role, key
        self.K = ref.sha256(key)
        if fresh:
            sim.fresh_sim(L, io, misc, seed)
        self.keep = sim.Keep()
        self.nopfs, self.reqpfs = nopfs, reqpfs
        self.conn = world.Conn(self, role, 0 if role == "client" else 1, key, nopfs=nopfs, reqpfs=reqpfs, timeo=timeo, nokeep=nokeep)
        self.out = None
        self.run()
        if role == "client":
            self.out = self.conn.out_ep()
            L.sim_connect_done(self.out, 0)
            self.wire, self.plain = self.out, self.conn.in_ep
        else:
            self.wire, self.plain = self.conn.in_ep, None
        self.sent = bytearray()     # by the code under test, on the wire
        self.got = bytearray()      # delivered to the plain side
        self.run()

    def connect_plain(self):
        if self.role == "server" and self.plain is None and not self.conn.dead:
            ep = self.conn.out_ep()
            if ep is not None:
                self.L.sim_connect_done(ep, 0)
                self.plain = ep
                self.run()

    def run(self, ns=0):
        rc = self.L.sim_run(self.L.sim_now + ns)
        self.keep.reraise()
        check(rc == 0, "the event loop was stopped with status %d (this ends the daemon)", rc)
        check(not self.L.sim_livelock, "the event loop spins without making progress")

    def pull(self):
        self.run()
        self.sent += self.L.take(self.wire)
        if self.plain is not None:
            self.got += self.L.take(self.plain)

    def push(self, data):
        if not self.L.sim_closed(self.wire):
            self.L.feed(self.wire, bytes(data))
        self.pull()

    def plain_send(self, data):
        if self.plain is not None and not self.L.sim_closed(self.plain):
            self.L.feed(self.plain, bytes(data))
        self.pull()

    # -- the peer's half of the handshake ---------------------------------------
    def macs(self, nC, nS, K=None):
        c, s = ref.dhmacs(K or self.K, nC, nS)
        return c, s

    def handshake(self, nonce, priv, check_mine=True, more=False):
        """Complete handshake; returns (keys the peer sends with, keys it reads with)."""
        self.pull()
        check(len(self.sent) == 32, "%s: %d bytes sent as its nonce", self.role, len(self.sent))
        mine = bytes(self.sent[:32])
        self.push(nonce)
        nC, nS = (nonce, mine) if self.role == "server" else (mine, nonce)
        mC, mS = self.macs(nC, nS)
        y = 1 if priv is None else ref.y_of(priv)
        if self.role == "server":
            self.push(ref.yh(y, mC))
            theirmac = mS
        else:
            theirmac = mC
            self.push(ref.yh(y, mS))
        for _ in range(3):
            self.pull()
        check(len(self.sent) == 320 or (more and len(self.sent) > 320), "%s: %d bytes sent during the handshake (expected 320)", self.role, len(self.sent))
        yb, h = bytes(self.sent[32:288]), bytes(self.sent[288:320])
        check(ref.hmac256(theirmac, yb) == h, "%s: its Diffie-Hellman message does not carry the documented HMAC", self.role)
        yt = int.from_bytes(yb, "big")
        check(0 < yt < ref.P14, "%s: sent a Diffie-Hellman value which is not reduced", self.role)
        self.y_theirs = yt
        if priv is None:
            ysc = 1
        else:
            ysc = pow(yt, (1 << 258) + int.from_bytes(priv, "big"), ref.P14)
        kc, ks = ref.session_keys(self.K, nC, nS, ysc)
        self.nC, self.nS = nC, nS
        return (kc, ks) if self.role == "server" else (ks, kc)

    def end(self):
        if not self.conn.dead:
            self.conn.drop()
        self.keep.reraise()
        p = self.L.problems()
        check(not p, "misuse of a descriptor: %s", p.strip())
        check(len(self.conn.dead) == 1, "reported dead %d times", len(self.conn.dead))
        check(self.L.sim_nopen() == 0, "%d sockets are still open after the connection ended", self.L.sim_nopen())


def decode(keys, data, exact=True):
    """Split a packet stream; returns list of (payload, padding)."""
    out = []
    check(len(data) % 1060 == 0, "%d bytes on the wire after the handshake: not a whole number of 1060-byte packets", len(data))
    for i in range(0, len(data), 1060):
        p = keys.open(bytes(data[i:i + 1060]))
        check(p is not None, "packet %d is not what the documented format prescribes", i // 1060)
        out.append(p)
    return out
