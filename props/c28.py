"""C28: spipe relays standard input and output faithfully and reports how it ended."""
import fcntl, os, signal, socket, struct, subprocess, threading, time
from hypothesis import strategies as st
from vf import gen, procs, ref, wirepeer, world
from vf.core import Target, Violation, check

WAIT = 6 * procs.SCALE


def strat(tier):
    big = 400 if tier == "quick" else 3000
    return st.fixed_dictionaries(dict(
        sin=st.sampled_from(["pipe", "pipe", "file", "socket", "null", "key"]), sout=st.sampled_from(["pipe", "pipe", "file", "socket"]),
        up=st.lists(st.one_of(st.integers(1, 3), st.integers(1000, 1100), st.integers(1, 9000), st.integers(1, big * 1000)), max_size=4),
        down=st.lists(st.one_of(st.integers(1, 1024), st.sampled_from([1, 1023, 1024])), max_size=12), rep=st.sampled_from([1, 1, 1, 5, 60]),
        end=st.sampled_from(["up", "up", "down", "down", "both", "refused", "badkey", "reset", "reset", "tamper", "term", "eofhs", "nostdout"]),
        slow=st.booleans(), jolt=st.sampled_from([0, 0, 3, 10]), late=st.integers(0, 3000), unix=st.booleans(), flags=st.sampled_from([[], ["-f"], ["-g"], ["-j"], ["-o", "30"]])))


class Sink(threading.Thread):
    def __init__(self, fd):
        super().__init__(daemon=True)
        self.fd, self.got, self.eof = fd, bytearray(), False

    def run(self):
        while True:
            try:
                b = os.read(self.fd, 65536)
            except OSError:
                b = b""
            if not b:
                self.eof = True
                return
            self.got += b


def run(case):
    key = world.pattern("c28", 0, 40)
    end, sin, sout = case["end"], case["sin"], case["sout"]
    if sin in ("file", "null", "key") and end == "down":
        end = "both"
    up = b"" if sin in ("null", "key") else b"".join(world.pattern("up%d" % i, 0, n) for i, n in enumerate(case["up"]))
    packets = [world.pattern("dn%d" % i, 0, n) for i, n in enumerate(case["down"])] * case["rep"]
    down = b"".join(packets)
    late = world.pattern("late", 0, case["late"])
    with procs.Scratch() as sc:
        kf = sc.write("k", key)
        if case["unix"]:
            srv = socket.socket(socket.AF_UNIX)
            srv.bind(sc.path("s"))
            addr = sc.path("s")
        else:
            srv = socket.socket()
            srv.bind(("127.0.0.1", 0))
            addr = "[127.0.0.1]:%d" % srv.getsockname()[1]
        sc.socks.append(srv)
        if end != "refused":
            srv.listen(5)
        argv = [procs.binpath("spipe"), "-t", addr, "-k", "-" if sin == "key" else kf, *case["flags"]]
        # Standard input and output.
        wr = None
        if sin == "pipe":
            r, wr = os.pipe()
        elif sin == "socket":
            a, b = socket.socketpair()
            r, wr = a.detach(), b.detach()
        elif sin == "file":
            r = os.open(sc.write("in", up), os.O_RDONLY)
        elif sin == "key":
            r = os.open(kf, os.O_RDONLY)
        else:
            r = os.open("/dev/null", os.O_RDONLY)
        rd = None
        if sout == "pipe":
            rd, w = os.pipe()
            if case["jolt"]:
                fcntl.fcntl(w, fcntl.F_SETPIPE_SZ, 4096)
        elif sout == "socket":
            a, b = socket.socketpair()
            rd, w = a.detach(), b.detach()
        else:
            w = os.open(sc.path("out"), os.O_WRONLY | os.O_CREAT, 0o600)
        fds = [f for f in (wr, rd) if f is not None]
        for f in fds:
            os.set_inheritable(f, False)
        try:
            p = sc.spawn(argv, stdin=r, stdout=w)
        finally:
            os.close(r)
            os.close(w)
        try:
            return drive(case, sc, p, srv, key, end, up, packets, down, late, wr, rd, fds)
        except OSError as e:
            raise Violation("the exchange failed: %s; spipe's status is %s: %s" % (e, p.poll(), sc.err(p)))
        finally:
            p.kill()
            for f in fds:
                try:
                    os.close(f)
                except OSError:
                    pass


def drive(case, sc, p, srv, key, end, up, packets, down, late, wr, rd, fds):
    sin, sout = case["sin"], case["sout"]

    def close(fd):
        fds.remove(fd)
        os.close(fd)

    def feed(data):
        off = 0
        while off < len(data):
            try:
                off += os.write(wr, data[off:off + 65536])
            except OSError:
                return

    def out():
        return bytes(sink.got) if rd is not None else open(sc.path("out"), "rb").read()

    def ended(secs=WAIT):
        try:
            return p.wait(secs)
        except subprocess.TimeoutExpired:
            raise Violation("spipe does not end (%s): %s" % (end, sc.err(p)))

    sink = None
    if rd is not None:
        sink = Sink(rd)
        if not case["slow"] and end != "nostdout":
            sink.start()
    feeder = None
    if wr is not None:
        feeder = threading.Thread(target=feed, args=(up,), daemon=True)
        feeder.start()
    slowread = case["slow"] and rd is not None
    cls = [end, "in-" + sin, "out-" + sout]
    if end == "refused":
        st_ = ended()
        check(st_ in (1, -signal.SIGPIPE), "spipe ends with status %s instead of failure: it could not connect", st_)
        check(b"" == (out() if not slowread else b""), "something was written to standard output")
        return dict(nontrivial=True, classes=cls)
    srv.settimeout(WAIT)
    s, _ = srv.accept()
    sc.socks.append(s)
    if end in ("eofhs", "badkey"):
        n, how = wirepeer.recvn(s, 32, WAIT)
        check(how == "ok", "no handshake is begun")
        if end == "badkey":
            s.sendall(ref.sha256(b"x"))
            y, how = wirepeer.recvn(s, 288, WAIT)
            mC, mS = ref.dhmacs(ref.sha256(b"other key"), n, ref.sha256(b"x"))
            s.sendall(ref.yh(ref.y_of(ref.sha256(b"y")), mS))
            check(wirepeer.recvn(s, 1, WAIT)[1] in ("eof", "reset"), "spipe goes on with a peer which does not have the key")
        else:
            s.close()
        st_ = ended()
        check(st_ in (1, -signal.SIGPIPE), "spipe ends with status %s instead of failure: the handshake failed", st_)
        if slowread:
            sink.start()
        if sink and end != "nostdout":
            sink.join(WAIT)
        check(out() == b"", "something was written to standard output")
        return dict(nontrivial=True, classes=cls)
    peer = wirepeer.Server(s, key)
    peer.start()
    if end == "nostdout":
        # Nobody reads standard output any more: spipe has to notice and end.
        if rd is None:
            return dict(nontrivial=False, classes=[])
        close(rd)
        try:
            for _ in range(40):
                for x in packets or [b"x"]:
                    peer.send(x)
                time.sleep(0.01)
        except OSError:
            pass
        st_ = ended()
        check(st_ in (1, -signal.SIGPIPE), "spipe ends with status %s instead of failure: standard output was closed", st_)
        return dict(nontrivial=True, classes=cls)

    def send():
        for x in packets:
            peer.send(x)
    sender = threading.Thread(target=send, daemon=True)
    sender.start()

    def upsent():
        return len(peer.got) >= len(up) or peer.end

    def alldown():
        return rd is None and os.path.getsize(sc.path("out")) >= len(down) or rd is not None and len(sink.got) >= len(down)

    if end in ("up", "down", "both"):
        # Being stopped and continued makes the system calls under way return early.
        for i in range(case["jolt"]):
            os.kill(p.pid, signal.SIGSTOP)
            time.sleep(0.004)
            os.kill(p.pid, signal.SIGCONT)
            time.sleep(0.005)
            if slowread and rd is not None and i == 1:
                sink.start()
        if end != "down":
            if feeder:
                feeder.join(WAIT)
                check(not feeder.is_alive(), "spipe does not read all of its standard input")
                close(wr)
            procs.wait_for(lambda: peer.end, what="the end of standard input to arrive")
            check(peer.end == "eof" and not peer.bad, "the outgoing stream ended wrongly: %s %s", peer.end, peer.bad)
            check(bytes(peer.got) == up, "the target received %d bytes which differ from the %d on standard input", len(peer.got), len(up))
        else:
            procs.wait_for(upsent, what="standard input to arrive")
            check(bytes(peer.got) == up, "the target received %d bytes which differ from the %d on standard input", len(peer.got), len(up))
        want = down
        if end == "up":
            # The other direction goes on.
            sender.join(WAIT if not slowread else 0.05)
            if slowread and not sink.is_alive() and sink.ident is None:
                sink.start()
            sender.join(WAIT)
            for i in range(0, len(late), 1024):
                peer.send(late[i:i + 1024])
            want = down + late
            s.shutdown(socket.SHUT_WR)
        elif end == "both":
            if slowread:
                sender.join(0.05)
                if sender.is_alive() and sink.ident is None:
                    sink.start()
            sender.join(WAIT)
            s.shutdown(socket.SHUT_WR)
        else:
            sender.join(0.05 if slowread else WAIT)
            if sender.is_alive() and sink.ident is None:
                sink.start()
                sender.join(WAIT)
            s.shutdown(socket.SHUT_WR)
            if not slowread and rd is not None:
                if sout == "socket":
                    procs.wait_for(lambda: sink.eof, what="the end of the incoming stream to be passed on to the socket which is standard output")
                else:
                    procs.wait_for(alldown, what="the incoming data to be written to standard output")
            check(p.poll() is None, "spipe ended although its standard input has not: status %s, %s", p.returncode, sc.err(p))
            feed(late)
            procs.wait_for(lambda: len(peer.got) >= len(up) + len(late) or peer.end, what="data read after the incoming stream's end")
            close(wr)
            procs.wait_for(lambda: peer.end, what="the end of standard input to arrive")
            check(peer.end == "eof" and not peer.bad, "the outgoing stream ended wrongly: %s %s", peer.end, peer.bad)
            check(bytes(peer.got) == up + late, "data sent after the incoming stream ended was lost: %d bytes instead of %d", len(peer.got), len(up) + len(late))
        if slowread and sink.ident is None:
            time.sleep(0.1)
            sink.start()
        st_ = ended()
        check(st_ == 0, "spipe ends with status %s after both streams have ended: %s", st_, sc.err(p))
        if sink:
            sink.join(WAIT)
        check(out() == want, "standard output has %d bytes which differ from the %d received", len(out()), len(want))
        return dict(nontrivial=bool(up or want), classes=cls + (["slow"] if slowread else []))
    # Broken connections and signals.
    if not slowread:
        sender.join(WAIT)
        procs.wait_for(alldown, what="the incoming data to be written to standard output")
    procs.wait_for(upsent, what="standard input to arrive") if not slowread or len(down) < 4000 else None
    if end == "reset" and not case["unix"]:
        peer.reset()
    elif end in ("tamper", "reset"):
        x = bytearray(peer.tx.seal(b"tamper"))
        x[case["late"] % 1060] ^= 1 << case["late"] % 8
        s.sendall(bytes(x))
    else:
        check(p.poll() is None, "spipe ended although nothing has: status %s, %s", p.returncode, sc.err(p))
        # Signals are honoured from the moment the connection is set up.
        os.kill(p.pid, signal.SIGTERM)
    sluggish = slowread and len(down) > 4000
    if sluggish:
        time.sleep(0.05)
        sink.start()
    st_ = ended()
    if end == "term":
        check(st_ == 0, "spipe ends with status %s after SIGTERM: %s", st_, sc.err(p))
    else:
        check(st_ in (1, -signal.SIGPIPE), "spipe ends with status %s instead of failure: the connection was broken (%s)", st_, end)
    if sink:
        if sink.ident is None:
            sink.start()
        sink.join(WAIT)
    g = out()
    check(g == down[:len(g)], "standard output has data which was not sent")
    check(slowread or len(g) == len(down), "data written to standard output has vanished")
    return dict(nontrivial=True, classes=cls)


# --- endings which race with data in flight ----------------------------------------
def rstrat(tier):
    return st.fixed_dictionaries(dict(n=st.integers(1, 8000), tries=st.just(600), after=st.sampled_from([0, 32]), flood=st.booleans()))


def rrun(case):
    """Many connections which fail while data is waiting to be sent."""
    data = world.pattern("race", 0, case["n"])
    bad, seen = [], {}
    with procs.Scratch() as sc:
        kf = sc.write("k", b"k" * 32)
        srv = socket.socket()
        srv.bind(("127.0.0.1", 0))
        srv.listen(50)
        sc.socks.append(srv)
        addr = "[127.0.0.1]:%d" % srv.getsockname()[1]
        done = []

        def acceptor():
            while not done:
                try:
                    s, _ = srv.accept()
                except OSError:
                    return
                try:
                    s.recv(32)
                    if case["after"]:
                        s.sendall(b"n" * case["after"])
                except OSError:
                    pass
                s.close()

        def flood(fd):
            try:
                while True:
                    os.write(fd, data)
            except OSError:
                pass
            os.close(fd)

        def worker():
            for _ in range(case["tries"] // 8):
                if bad:
                    return
                r, w = os.pipe()
                with open(sc.path("err%s" % threading.get_ident()), "wb") as ef:
                    p = subprocess.Popen([procs.binpath("spipe"), "-t", addr, "-k", kf], stdin=r, stdout=subprocess.DEVNULL, stderr=ef, env=procs.child_env())
                os.close(r)
                t = threading.Thread(target=flood, args=(w,), daemon=True) if case["flood"] else None
                if t:
                    t.start()
                else:
                    try:
                        os.write(w, data)
                    except OSError:
                        pass
                try:
                    x = p.wait(WAIT)
                except subprocess.TimeoutExpired:
                    x = "nothing: it hangs"
                    p.kill()
                    p.wait()
                if not t:
                    os.close(w)
                seen[x] = seen.get(x, 0) + 1
                # (SIGPIPE, on writing to the connection which is gone, is an ordinary end of a filter.)
                if x not in (1, -signal.SIGPIPE):
                    bad.append(x)
        at = threading.Thread(target=acceptor, daemon=True)
        at.start()
        ts = [threading.Thread(target=worker) for _ in range(8)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        done.append(1)
        try:
            socket.create_connection(srv.getsockname()).close()
        except OSError:
            pass
        at.join(5)
    check(not bad, "spipe's handshake failed while it had data to send; it ended with %s instead of exit status 1", bad[:1])
    return dict(nontrivial=True, evals=sum(seen.values()), classes=["status %s" % k for k in seen])


BINS = ("plain",)
TARGETS = [Target("spipe", strat, run, "anything but an empty exchange", quick=(6, 120, 20), thorough=(8, 4000, 300), lib=None, case_timeout=120),
           Target("race", rstrat, rrun, "every case", quick=(1, 3, 16), thorough=(2, 100, 300), lib=None, case_timeout=300)]
