"""An independent spiped server (vf/ref.py only) on a real socket, for a real client program."""
import select, socket, struct, threading, time
from . import procs, ref, world
from .core import Violation, check


def recvn(s, n, secs):
    out = b""
    end = time.monotonic() + secs
    while len(out) < n:
        r, _, _ = select.select([s], [], [], max(0, end - time.monotonic()))
        if not r:
            return out, "timeout"
        try:
            b = s.recv(n - len(out))
        except OSError:
            return out, "reset"
        if not b:
            return out, "eof"
        out += b
    return out, "ok"


class Server:
    """Handshake done; packets in both directions."""

    def __init__(self, sock, key, pfs=True):
        self.s = sock
        K = ref.sha256(key)
        wait = 10 * procs.SCALE
        nC, how = recvn(sock, 32, wait)
        check(how == "ok", "the client's handshake does not begin (%s)", how)
        nS = ref.sha256(b"server nonce")
        sock.sendall(nS)
        mC, mS = ref.dhmacs(K, nC, nS)
        y, how = recvn(sock, 288, wait)
        check(how == "ok" and ref.yh(y[:256], mC) == y, "the client's second handshake message is not right (%s)", how)
        priv = ref.sha256(b"server secret")
        sock.sendall(ref.yh(ref.y_of(priv) if pfs else 1, mS))
        yv = int.from_bytes(y[:256], "big")
        ys = 1 if not pfs or yv == 1 else pow(yv, (1 << 258) + int.from_bytes(priv, "big"), ref.P14)
        kc, ks = ref.session_keys(K, nC, nS, ys)
        self.tx, self.rx = ks, kc
        self.got = bytearray()
        self.end = None           # how the incoming stream ended
        self.bad = None
        self.stop = False
        self.lock = threading.Lock()

    def send(self, data):
        self.s.sendall(self.tx.seal(data))

    def reader(self):
        """Runs in a thread: collects everything until the end."""
        buf = b""
        while True:
            try:
                if not select.select([self.s], [], [], 0.01)[0]:
                    if self.stop:
                        return
                    continue
                b = self.s.recv(65536)
            except (OSError, ValueError):
                self.end = "reset"
                return
            if not b:
                if buf:
                    self.bad = "the stream ends inside a packet (%d bytes)" % len(buf)
                self.end = "eof"
                return
            buf += b
            while len(buf) >= 1060:
                d = self.rx.open(buf[:1060])
                buf = buf[1060:]
                if d is None:
                    self.bad = "a packet is not right"
                    self.end = "bad"
                    return
                self.got += d[0]

    def start(self):
        self.thread = threading.Thread(target=self.reader, daemon=True)
        self.thread.start()

    def reset(self):
        """Close with a reset.  (A close while another thread is reading would take effect only afterwards.)"""
        self.stop = True
        self.thread.join()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()
