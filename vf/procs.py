"""Running the real programs in a scratch directory, over loopback/UNIX sockets."""
import os, select, shutil, signal, socket, subprocess, tempfile, threading, time
from . import build, world
from .core import Violation, check

SCALE = 4.0      # generous: the machine may be busy


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def wait_for(f, secs=10 * SCALE, what="condition"):
    t = time.monotonic() + secs
    d = 0.002
    while time.monotonic() < t:
        r = f()
        if r:
            return r
        time.sleep(d)
        d = min(d * 1.5, 0.05)
    raise Violation("timed out waiting for %s" % what)


def binpath(name, san=False):
    d = build.bins() if san else build.plainbins()
    return os.path.join(d, name, name)


def child_env(preload=None):
    """preload: environment for csrc/preload.c"""
    e = dict(os.environ)
    e.pop("LD_PRELOAD", None)
    if preload is not None:
        e["LD_PRELOAD"] = build.preload()
        e.update(preload)
    return e


_prctl = None


def die_with_parent():
    _prctl(1, 9, 0, 0, 0)


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vfp-", dir=os.environ.get("VF_TMP") or None)
        self.procs = []
        self.socks = []

    def path(self, n):
        return os.path.join(self.dir, n)

    def write(self, n, data):
        with open(self.path(n), "wb") as f:
            f.write(data)
        return self.path(n)

    def spawn(self, argv, preload=None, **kw):
        errf = open(self.path("err%d" % len(self.procs)), "wb")
        kw.setdefault("stdin", subprocess.DEVNULL)
        kw.setdefault("stdout", errf)
        global _prctl
        if _prctl is None:
            import ctypes
            _prctl = ctypes.CDLL(None).prctl
        kw.setdefault("preexec_fn", die_with_parent)
        p = subprocess.Popen(argv, stderr=errf, cwd=self.dir, env=child_env(preload), start_new_session=True, **kw)
        p.errname = errf.name
        errf.close()
        self.procs.append(p)
        return p

    def err(self, p):
        with open(p.errname, "rb") as f:
            return f.read()[-3000:].decode(errors="replace")

    def close(self):
        for s in self.socks:
            try:
                s.close()
            except OSError:
                pass
        for p in self.procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def recv_all(s, n=None, secs=20 * SCALE):
    """Read n bytes (or to EOF)."""
    out = b""
    end = time.monotonic() + secs
    while n is None or len(out) < n:
        r, _, _ = select.select([s], [], [], max(0, end - time.monotonic()))
        if not r:
            raise Violation("timed out: %d bytes received%s" % (len(out), "" if n is None else " of %d" % n))
        try:
            b = s.recv(65536 if n is None else min(65536, n - len(out)))
        except ConnectionResetError:
            return out, "reset"
        if not b:
            return out, "eof"
        out += b
    return out, "more"


def recv_all_fd(f, n, secs=20 * SCALE):
    """Read n bytes from a file object without buffering."""
    out = b""
    end = time.monotonic() + secs
    while len(out) < n:
        r, _, _ = select.select([f], [], [], max(0, end - time.monotonic()))
        if not r:
            raise Violation("timed out: %d bytes received of %d" % (len(out), n))
        b = os.read(f.fileno(), n - len(out))
        if not b:
            break
        out += b
    return out


class Chain(Scratch):
    """user -> spiped -e -> spiped -d -> backend"""

    def __init__(self, cflags=(), sflags=(), unix=False, keylen=32, key2=None, san=False, start=True, cextra=(), sextra=()):
        super().__init__()
        try:
            self.key = self.write("key", world.pattern("key", 0, keylen))
            k2 = self.key if key2 is None else self.write("key2", key2)
            if unix:
                self.listen_addr, self.mid_addr, self.back_addr = self.path("a"), self.path("b"), self.path("c")
            else:
                self.ports = [free_port(), free_port()]
                self.listen_addr = "[127.0.0.1]:%d" % self.ports[0]
                self.mid_addr = "[127.0.0.1]:%d" % self.ports[1]
            if unix:
                self.back = socket.socket(socket.AF_UNIX)
                self.back.bind(self.back_addr)
            else:
                self.back = socket.socket()
                self.back.bind(("127.0.0.1", 0))
                self.back_addr = "[127.0.0.1]:%d" % self.back.getsockname()[1]
            self.back.listen(64)
            self.socks.append(self.back)
            b = binpath("spiped", san)
            self.d = self.spawn([b, "-F", "-d", "-s", self.mid_addr, "-t", self.back_addr, "-k", k2, *sflags, *sextra])
            self.e = self.spawn([b, "-F", "-e", "-s", self.listen_addr, "-t", self.mid_addr, "-k", self.key, *cflags, *cextra])
            self.unix = unix
            if start:
                wait_for(lambda: self.listening(self.mid_addr, self.d) and self.listening(self.listen_addr, self.e), what="the daemons to listen")
        except BaseException:
            self.close()
            raise

    def listening(self, addr, p):
        if p.poll() is not None:
            raise Violation("daemon exited at start with status %s: %s" % (p.returncode, self.err(p)))
        if addr.startswith("/"):
            return os.path.exists(addr) and self._unix_listen(addr)
        port = int(addr.rsplit(":", 1)[1])
        hexp = ":%04X " % port
        with open("/proc/net/tcp") as f:
            return any(hexp in l and " 0A " in l for l in f)

    def _unix_listen(self, addr):
        with open("/proc/net/unix") as f:
            return any(l.rstrip().endswith(" " + addr) and " 00010000 " in l for l in f)

    def connect(self):
        if self.unix:
            s = socket.socket(socket.AF_UNIX)
            s.settimeout(10 * SCALE)
            s.connect(self.listen_addr)
            s.settimeout(None)
        else:
            s = socket.create_connection(("127.0.0.1", self.ports[0]))
        self.socks.append(s)
        return s

    def accept(self, secs=10 * SCALE):
        r, _, _ = select.select([self.back], [], [], secs)
        if not r:
            raise Violation("timed out: no connection arrived at the backend")
        s, _ = self.back.accept()
        self.socks.append(s)
        return s

    def alive(self):
        return self.d.poll() is None and self.e.poll() is None

    def status(self):
        return (self.e.poll(), self.d.poll(), self.err(self.e), self.err(self.d))

    def exchange(self, conns):
        """Concurrent connections, each with its own data in both directions."""
        pairs = []
        for i, c in enumerate(conns):
            u = self.connect()
            x = self.accept()
            pairs.append((u, x))
        errs = []

        def sender(s, tag, sizes):
            off = 0
            for n in sizes:
                s.sendall(world.pattern(tag, off, n))
                off += n

        def one(i, c, u, x):
            try:
                tu, tx = "u%d" % i, "x%d" % i
                nu, nx = sum(c["u"]), sum(c["x"])
                world.pattern(tu, 0, nu), world.pattern(tx, 0, nx)
                ths = [threading.Thread(target=sender, args=(u, tu, c["u"])), threading.Thread(target=sender, args=(x, tx, c["x"]))]
                for t in ths:
                    t.daemon = True
                    t.start()
                gx, _ = recv_all(x, nu)
                check(gx == world.pattern(tu, 0, nu), "connection %d: the backend received %d bytes which differ from the %d sent", i, len(gx), nu)
                gu, _ = recv_all(u, nx)
                check(gu == world.pattern(tx, 0, nx), "connection %d: the user received %d bytes which differ from the %d sent", i, len(gu), nx)
                a, b = (u, x) if c["first"] == "u" else (x, u)
                a.shutdown(socket.SHUT_WR)
                r, how = recv_all(b)
                check(r == b"" and how == "eof", "connection %d: after the other side ended its stream: %d more bytes, %s", i, len(r), how)
                b.sendall(b"after-half-close")
                r, how = recv_all(a, 16)
                check(r == b"after-half-close", "connection %d: data sent after the other side's end-of-stream was lost (%r)", i, r)
                b.shutdown(socket.SHUT_WR)
                r, how = recv_all(a)
                check(r == b"" and how == "eof", "connection %d: at the end: %d more bytes, %s", i, len(r), how)
            except BaseException as e:
                errs.append(e)
        # Which backend connection belongs to which user: connections are made one at a time.
        ths = [threading.Thread(target=one, args=(i, c, *pairs[i])) for i, c in enumerate(conns)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
