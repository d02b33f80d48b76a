"""The real programs (ASan) with one thing failing: shared by C32."""
import os, select, signal, socket, subprocess, threading, time
from hypothesis import strategies as st
from . import build, procs, ref, wirepeer, world
from .core import Violation, check

WAIT = 12 * procs.SCALE
ENV = {"ASAN_OPTIONS": "exitcode=99:detect_leaks=0", "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1:halt_on_error=1"}


def spawn(sc, prog, args, case, **kw):
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "ASAN_OPTIONS")}
    env.update(ENV)
    env["VF_FAULT"] = "%s:%d%s" % (case["kind"], case["k"], "+" if case["persist"] else "")
    env["VF_FAULTLOG"] = sc.path("hit")
    err = open(sc.path("err"), "wb")
    kw.setdefault("stdout", err)
    p = subprocess.Popen([os.path.join(build.faultbins(), prog, prog), *args], stderr=err, cwd=sc.dir, env=env, start_new_session=True, **kw)
    p.errname = err.name
    err.close()
    sc.procs.append(p)
    return p


def hit(sc):
    try:
        return open(sc.path("hit")).read()
    except OSError:
        return ""


def ended(sc, p, what, secs=WAIT):
    try:
        r = p.wait(secs)
    except subprocess.TimeoutExpired:
        raise Violation("%s does not end (what failed: %s): %s" % (what, hit(sc) or "nothing", sc.err(p)))
    sane(sc, p, what)
    return r


def sane(sc, p, what):
    r = p.poll()
    if r == -signal.SIGABRT and "Failed to allocate memory in getopt" in sc.err(p):
        return      # said and meant: getopt cannot report it otherwise
    if r is not None and r not in (0, 1, -signal.SIGPIPE):
        raise Violation("%s ended with status %d (what failed: %s): %s" % (what, r, hit(sc), sc.err(p)[-1500:]))


def strat(prog):
    def s(tier):
        d = dict(k=st.integers(0, 90), kind=st.sampled_from(["alloc", "sys", "sys", "thr"]), persist=st.sampled_from([False, False, False, True]),
                 up=st.sampled_from([0, 1, 3000, 20000]), down=st.sampled_from([0, 1, 3000, 20000]), opts=st.sampled_from([[], [], ["-f"], ["-j"]]))
        if prog == "spiped":
            d["role"] = st.sampled_from(["-e", "-d"])
            d["fg"] = st.just(True)
        return st.fixed_dictionaries(d)
    return s


def enum(prog):
    def e(tier):
        out = []
        for kind, n in (("alloc", 48), ("sys", 40), ("thr", 5)):
            step = 1 if tier == "thorough" or kind == "thr" else 2
            for k in range(0, n, step):
                c = dict(k=k, kind=kind, persist=False, up=1200, down=1200, opts=[])
                if prog == "spiped":
                    c.update(role="-e" if k % 4 < 2 else "-d", fg=True)
                out.append(c)
        return out
    return e


def spipe_run(case):
    up, down = world.pattern("fu", 0, case["up"]), world.pattern("fd", 0, case["down"])
    with procs.Scratch() as sc:
        kf = sc.write("k", b"fault key")
        srv = socket.socket()
        srv.bind(("127.0.0.1", 0))
        srv.listen(5)
        sc.socks.append(srv)
        out = open(sc.path("out"), "wb")
        r, w = os.pipe()
        try:
            p = spawn(sc, "spipe", ["-t", "[127.0.0.1]:%d" % srv.getsockname()[1], "-k", kf, *case["opts"]], case, stdin=r, stdout=out)
        finally:
            os.close(r)
            out.close()
        peer = None
        try:
            def feed():
                try:
                    os.write(w, up)
                except OSError:
                    pass
            t = threading.Thread(target=feed, daemon=True)
            t.start()
            end = time.monotonic() + WAIT
            while p.poll() is None and time.monotonic() < end:
                if select.select([srv], [], [], 0.02)[0]:
                    break
            if select.select([srv], [], [], 0)[0]:
                s, _ = srv.accept()
                s.settimeout(WAIT)
                sc.socks.append(s)
                try:
                    peer = wirepeer.Server(s, b"fault key")
                    peer.start()
                    for i in range(0, len(down), 1024):
                        peer.send(down[i:i + 1024])
                    s.shutdown(socket.SHUT_WR)
                except (OSError, Violation):
                    if p.poll() is None and not hit(sc):
                        raise
                    s.close()
            t.join(WAIT)
        finally:
            os.close(w)
        rc = ended(sc, p, "spipe")
        h = hit(sc)
        got = open(sc.path("out"), "rb").read()
        check(got == down[:len(got)], "standard output has data which was not sent (what failed: %s)", h)
        if peer is not None:
            procs.wait_for(lambda: peer.end, what="the end of the stream to spipe's peer")
            check(not peer.bad or "inside a packet" in peer.bad, "the peer was sent nonsense: %s (what failed: %s)", peer.bad, h)
            check(bytes(peer.got) == up[:len(peer.got)], "the peer got data which was not on standard input")
        if rc == 0:
            check(peer is not None and bytes(peer.got) == up and got == down,
                  "spipe reports success but only %d of %d and %d of %d bytes were relayed (what failed: %s)", len(peer.got) if peer else 0, len(up), len(got), len(down), h or "nothing")
        else:
            check(h, "spipe ended with status %s although nothing went wrong: %s", rc, sc.err(p))
        return dict(nontrivial=bool(h), classes=["hit-" + h + ("-status-%d" % rc)] if h else ["not-hit"])


def spiped_run(case):
    up, down = world.pattern("fu", 0, max(case["up"], 1)), world.pattern("fd", 0, max(case["down"], 1))
    with procs.Scratch() as sc:
        kf = sc.write("k", b"fault key")
        back = socket.socket()
        back.bind(("127.0.0.1", 0))
        back.listen(20)
        sc.socks.append(back)
        pa, pb = procs.free_port(), procs.free_port()
        plain = procs.binpath("spiped")
        ba = "[127.0.0.1]:%d" % back.getsockname()[1]
        A, B = "[127.0.0.1]:%d" % pa, "[127.0.0.1]:%d" % pb
        ea, da = ["-e", "-s", A, "-t", B, "-k", kf], ["-d", "-s", B, "-t", ba, "-k", kf]
        mine, other = (ea, da) if case["role"] == "-e" else (da, ea)
        o = sc.spawn([plain, "-F", *other])
        p = spawn(sc, "spiped", ["-F", *mine, *case["opts"]], case)

        def listening(port, q):
            if q.poll() is not None:
                return True
            hexp = ":%04X " % port
            with open("/proc/net/tcp") as f:
                return any(hexp in l and " 0A " in l for l in f)
        procs.wait_for(lambda: listening(pa, p) and listening(pb, p), secs=WAIT, what="the daemons to listen (what failed: %s)" % hit(sc))
        check(o.poll() is None, "harness: the other daemon ended: %s", sc.err(o))

        def exchange(must):
            """One connection through both daemons; True if all went well."""
            try:
                u = socket.create_connection(("127.0.0.1", pa), WAIT)
                sc.socks.append(u)
                x = None
                end = time.monotonic() + WAIT
                u.sendall(up)
                while time.monotonic() < end:
                    if select.select([back], [], [], 0.02)[0]:
                        x, _ = back.accept()
                        sc.socks.append(x)
                        break
                    if select.select([u], [], [], 0)[0] or p.poll() is not None:
                        break
                if x is None:
                    check(time.monotonic() < end, "a connection is neither served nor closed (what failed: %s)", hit(sc) or "nothing")
                    return False
                x.sendall(down)
                u.shutdown(socket.SHUT_WR)
                x.shutdown(socket.SHUT_WR)
            except OSError:
                return False
            try:
                a, h1 = procs.recv_all(x, None, WAIT)
                b, h2 = procs.recv_all(u, None, WAIT)
            except Violation as e:
                raise Violation("%s (what failed: %s)" % (e, hit(sc) or "nothing"))
            except OSError:
                return False
            check(a == up[:len(a)] and b == down[:len(b)], "data which was not sent came out (what failed: %s)", hit(sc))
            return a == up and b == down
        n = 0
        while p.poll() is None and n < 3:
            had = hit(sc)
            ok = exchange(False)
            n += 1
            end = time.monotonic() + 3
            while not ok and p.poll() is None and time.monotonic() < end:
                time.sleep(0.02)        # it may be on its way out
            if not ok and p.poll() is None:
                check(hit(sc), "a connection failed although nothing went wrong")
                check(not had or case["persist"], "after a single failure (%s), later connections fail too", hit(sc))
        h = hit(sc)
        if p.poll() is None:
            p.send_signal(signal.SIGTERM)
        rc = ended(sc, p, "spiped")
        if rc:
            check(hit(sc), "spiped ended with status %s although nothing went wrong: %s", rc, sc.err(p))
        h = hit(sc)
        return dict(nontrivial=bool(h), classes=["hit-" + h + "-status-%d" % rc] if h else ["not-hit"])
