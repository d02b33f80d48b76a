"""C24: address strings mean what the documentation says."""
import ctypes as C, ipaddress, os, re, socket, struct
from hypothesis import strategies as st
from vf import gen, procs, sim, world
from vf.core import Target, Violation, check

DEC = re.compile(rb"[0-9]+\Z")
GRAYNUM = re.compile(rb"[ \t\n\v\f\r]*[+-]?[0-9]+\Z")
v4 = st.one_of(st.tuples(*[st.integers(0, 255)] * 4).map(lambda t: "%d.%d.%d.%d" % t), st.sampled_from(["0.0.0.0", "127.0.0.1", "255.255.255.255"]))


@st.composite
def v6(draw):
    n = draw(st.one_of(st.integers(0, 2**128 - 1), st.sampled_from([0, 1, 1 << 127, 0xffff << 32 | 0x7f000001]), st.integers(0, 7).map(lambda i: 0xbeef << (16 * i))))
    a = ipaddress.IPv6Address(n)
    form = draw(st.integers(0, 4))
    if form == 0:
        return a.compressed
    if form == 1:
        return a.exploded
    if form == 2:
        return a.exploded.upper()
    if form == 3:
        return ":".join("%x" % ((n >> (112 - 16 * i)) & 0xffff) for i in range(8))
    return ":".join("%x" % ((n >> (112 - 16 * i)) & 0xffff) for i in range(6)) + ":" + str(ipaddress.IPv4Address(n & 0xffffffff))


port = st.one_of(st.integers(1, 65535).map(str), st.sampled_from(["0", "1", "65535", "65536", "65537", "131073", "4294967376", "18446744073709551696", "99999999999999999999999", "-1", "-80", "+80", " 80", "80 ", "080", "0x50", "8e1", "80a", "", "00", "8 0", "http"]))
host = st.one_of(st.sampled_from(["localhost", "a", "example.com", "x-1.y", "127.0.0.1", "::1", "h:1"]), st.text("abcdefxyz.-019", min_size=1, max_size=20))
path = st.one_of(st.sampled_from(["/", "/tmp/sock", "/a:1", "/a/[b]:80", "/x:0", "//", "/ [1.2.3.4]"]),
                 st.integers(100, 112).map(lambda n: "/" + "p" * (n - 1)), st.integers(1, 300).map(lambda n: "/" + "q" * n), st.text("/ab:[]. 0", min_size=0, max_size=30).map(lambda s: "/" + s))
junk = st.sampled_from("[]:/.0 %x-\t")


@st.composite
def addr(draw):
    k = draw(st.sampled_from(["v4", "v4", "v6", "v6", "host", "host", "path", "raw", "v4np", "v6np", "hostnp"]))
    s = {"v4": lambda: "[%s]:%s" % (draw(v4), draw(port)), "v6": lambda: "[%s]:%s" % (draw(v6()), draw(port)), "host": lambda: "%s:%s" % (draw(host), draw(port)),
         "path": lambda: draw(path), "raw": lambda: draw(st.text("[]:/.0123456789abcf %", max_size=25)), "v4np": lambda: "[%s]" % draw(v4),
         "v6np": lambda: "[%s]" % draw(v6()), "hostnp": lambda: draw(host)}[k]()
    if draw(st.integers(0, 3)) == 0:
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, len(s)))
            what = draw(st.sampled_from(["ins", "del", "dup"]))
            if what == "ins":
                s = s[:i] + draw(junk) + s[i:]
            elif what == "del":
                s = s[:i] + s[i + 1:]
            else:
                s = s[:i] + s[i:i + 1] + s[i:]
    return s


def strat(tier):
    return st.fixed_dictionaries(dict(s=addr(), addport=st.integers(0, 1), nres=st.sampled_from([0, 1, 1, 2, 5, 16, -2]), v6first=st.booleans(), failat=st.integers(-1, 12)))


def parse_port(p, lo):
    """-> number, None (invalid) or ('maybe', number)"""
    if DEC.match(p):
        n = int(p)
        ok = lo <= n <= 65535
        if ok and p != b"%d" % n:
            return ("maybe", n)         # leading zeros: decimal or refused, nothing else
        return n if ok else None
    m = GRAYNUM.match(p)
    if m:
        n = int(p)
        return ("maybe", n) if lo <= n <= 65535 else None
    return None


def ip(s, fam):
    try:
        t = s.decode("ascii")
    except UnicodeDecodeError:
        return None
    try:
        if fam == 4:
            return ipaddress.IPv4Address(t).packed
        if "%" in t:
            return None
        return ipaddress.IPv6Address(t).packed
    except ValueError:
        return None


def with_port(s):
    if s[:1] == b"/" or s[:1] == b":":
        return s
    i = s.rfind(b":")
    if s[:1] == b"[":
        return s if i > 0 and s[i - 1:i] == b"]" else s + b":0"
    return s if i >= 0 else s + b":0"


def expect(s, addport):
    """What the documentation says ${s} denotes."""
    if s == b"" or s[:1] == b":":
        return None
    if s[:1] == b"/":
        return ("unix", s) if len(s) <= 107 else None
    added = addport and with_port(s) != s
    if added:
        s = with_port(s)
    i = s.rfind(b":")
    if i < 0:
        return None
    h, p = s[:i], s[i + 1:]
    if h[:1] != b"[":
        return ("host", h, p)
    if len(h) < 2 or h[-1:] != b"]":
        return None
    h = h[1:-1]
    n = parse_port(p, 0)
    if n == 0 and not added:
        n = ("maybe", 0)        # "no particular port", stated explicitly
    if n is None:
        return None
    fam = 6 if b":" in h else 4
    a = ip(h, fam)
    if a is None:
        return None
    return ("ip", fam, a, n)


def decode(b):
    fam = struct.unpack("H", b[:2])[0]
    if fam == socket.AF_UNIX:
        return ("unix", b[2:].split(b"\0")[0])
    if fam == socket.AF_INET:
        check(not any(b[8:16]), "padding of an IPv4 address is not zero")
        return ("ip", 4, b[4:8], struct.unpack(">H", b[2:4])[0])
    if fam == socket.AF_INET6:
        check(not any(b[4:8]) and not any(b[24:28]), "flow or scope of an IPv6 address is not zero")
        return ("ip", 6, b[8:24], struct.unpack(">H", b[2:4])[0])
    raise Violation("address family %d" % fam)


def sockaddr(i, v6):
    if v6:
        return struct.pack("=HHI16sI", socket.AF_INET6, socket.htons(1000 + i), 0, bytes([0x20, i]) + b"\7" * 14, 0), (6, bytes([0x20, i]) + b"\7" * 14, 1000 + i)
    return struct.pack("=HH4s8x", socket.AF_INET, socket.htons(1000 + i), bytes([10, 0, i, 9])), (4, bytes([10, 0, i, 9]), 1000 + i)


def denotes(L, sa):
    """Ask the code to connect there and look at what it connects to."""
    fd = L.sock_connect_nb(sa)
    check(fd >= 0, "no connection could be started to the address")
    ep = L.sim_neps() - 1
    r = decode(L.peer(ep))
    dom = {4: socket.AF_INET, 6: socket.AF_INET6}.get(r[1], socket.AF_UNIX) if r[0] == "ip" else socket.AF_UNIX
    check(L.sim_domain(ep) == dom and (L.sim_type(ep) & 15) == socket.SOCK_STREAM, "the socket created for the address has domain %d and type %d", L.sim_domain(ep), L.sim_type(ep))
    L.__getattr__("__wrap_close")(fd) if False else L.cdll["__wrap_close"](fd)
    return r


def run(case):
    L = sim.load()
    sim.fresh_sim(L)
    L.sim_connect_default = 0
    keep = sim.Keep()
    asked = []
    n = case["nres"]

    def gai(node, svc, fam, ss, sl, mx):
        asked.append((node, svc, fam))
        if n < 0:
            return n
        for i in range(n):
            b, _ = sockaddr(i, (i % 2 == 0) == case["v6first"])
            C.memmove(ss + 128 * i, b, len(b))
            C.memmove(sl + 4 * i, struct.pack("=I", len(b)), 4)
        return n
    cb = keep.cb(sim.CB_GAI, gai)
    s = case["s"].encode()
    live0 = None
    L.sim_alloc_track = 1
    try:
        L.sim_set_gai(cb)
        live0 = L.sim_alloc_live
        v = L.sock_addr_validate(s)
        check((v == 0) == (s != b"" and s[:1] != b":"), "syntax check of %r says %d", s, v)
        e = expect(s, case["addport"])
        cls = []
        if s:
            p = L.sock_addr_ensure_port(s)
            check(p, "adding a port failed")
            got = C.string_at(p)
            L.sim_free(p)
            check(got == with_port(s), "adding a port to %r gives %r", s, got)
        if case["addport"]:
            sa = L.sock_resolve_one(s, 1) if s else None
            res = [sa] if sa else None
        else:
            l = L.sock_resolve(s)
            res = None
            if l:
                arr = C.cast(l, C.POINTER(sim.VP))
                res = []
                while arr[len(res)]:
                    res.append(arr[len(res)])
        keep.reraise()
        if e is None:
            check(res is None, "%r was accepted as %s", s, res and [denotes(L, a) for a in res])
            check(not asked, "a host name was looked up for %r", s)
            cls = ["invalid"]
        elif e[0] == "host":
            check(asked == [(e[1], e[2], 0)], "for %r, the lookups made were %r", s, asked)
            if n < 0 or (case["addport"] and n == 0):
                check(res is None, "an address came out although the lookup had none")
            else:
                want = [sockaddr(i, (i % 2 == 0) == case["v6first"])[1] for i in range(n)]
                if case["addport"]:
                    want = want[:1]
                check(res is not None, "the lookup succeeded but no address came out")
                got = [denotes(L, a)[1:] for a in res]
                check(got == want, "the lookup returned %r but the addresses are %r", want, got)
            cls = ["host"]
        else:
            check(not asked, "a host name was looked up for %r", s)
            maybe = e[0] == "ip" and isinstance(e[3], tuple)
            if maybe:
                e = (*e[:3], e[3][1])
            if not maybe:
                check(res is not None, "%r was refused", s)
            if res is not None:
                check(len(res) == 1, "%r stands for %d addresses", s, len(res))
                got = denotes(L, res[0])
                check(got == e, "%r was understood as %r", s, got)
                # Printed and read back it is the same address.
                p = L.sock_addr_prettyprint(res[0])
                t = C.string_at(p)
                L.sim_free(p)
                if e[0] == "unix":
                    check(t == s, "%r is printed as %r", s, t)
                else:
                    check(re.match(rb"\[[0-9a-f.:]+\]:[0-9]+\Z", t), "%r is printed as %r", s, t)
                    r = expect(t, 1)
                    check(r is not None and r[:3] == e[:3] and r[3] in (e[3], ("maybe", e[3])), "%r is printed as %r", s, t)
            cls = [e[0] if e[0] != "ip" else "ipv%d" % e[1]]
            if maybe:
                cls.append("gray-port")
        if res is not None:
            if case["addport"]:
                L.sock_addr_free(res[0])
            else:
                L.sock_addr_freelist(l)
        if case["failat"] >= 0 and s:
            # The same without memory: refused, and nothing left behind.
            L.sim_alloc_failed = 0
            L.sim_alloc_fail_at = case["failat"]
            r2 = L.sock_resolve_one(s, 1) if case["addport"] else L.sock_resolve(s)
            L.sim_alloc_fail_at = -1
            if L.sim_alloc_failed:
                check(not r2, "resolving succeeded although memory ran out")
                cls.append("nomem")
            else:
                check(bool(r2) == (res is not None), "resolving %r again gives another result", s)
            if r2:
                (L.sock_addr_free if case["addport"] else L.sock_addr_freelist)(r2)
        check(L.sim_gai_live == 0, "the result of a lookup was not released")
        check(L.sim_nopen() == 0, "harness: sockets left open")
        check(L.sim_alloc_live == live0, "%d blocks of memory were not released", L.sim_alloc_live - live0)
    finally:
        L.sim_alloc_fail_at = -1
        L.sim_alloc_track = 0
        L.sim_set_gai(C.cast(None, sim.CB_GAI))
    return dict(nontrivial=e is not None, classes=cls + (["addport"] if case["addport"] else []))


# --- the real daemon: which addresses it listens on, binds and connects to --------------
def rstrat(tier):
    ipv = st.sampled_from(["127.0.0.1", "127.0.0.2", "127.1.2.3", "::1"])
    return st.fixed_dictionaries(dict(listen=st.sampled_from(["v4", "v6", "unix", "name"]), target=st.sampled_from(["v4", "v6", "unix", "name"]),
                                      bind=st.sampled_from([None, "[%s]", "[%s]:0", "[%s]:P", "%s", "%s:0"]), bip=st.integers(2, 250), role=st.sampled_from(["-e", "-d"])))


def rrun(case):
    with procs.Scratch() as sc:
        key = sc.write("key", b"k")
        t = case["target"]
        if t == "unix":
            back = socket.socket(socket.AF_UNIX)
            back.bind(sc.path("t"))
            taddr = sc.path("t")
        else:
            back = socket.socket(socket.AF_INET6 if t == "v6" else socket.AF_INET)
            back.bind(("::1" if t == "v6" else "127.0.0.1", 0))
            p = back.getsockname()[1]
            taddr = {"v4": "[127.0.0.1]:%d", "v6": "[::1]:%d", "name": "127.0.0.1:%d"}[t] % p
        back.listen(5)
        sc.socks.append(back)
        l = case["listen"]
        lp = procs.free_port()
        laddr = {"v4": "[127.0.0.7]:%d" % lp, "v6": "[::1]:%d" % lp, "unix": sc.path("s"), "name": "127.0.0.7:%d" % lp}[l]
        argv = [procs.binpath("spiped"), "-F", case["role"], "-s", laddr, "-t", taddr, "-k", key]
        bp = None
        b = case["bind"]
        if b is not None and t in ("v4", "name"):
            bip = "127.0.3.%d" % case["bip"]
            bb = b % bip
            if b.endswith(":P"):
                bp = procs.free_port()
                bb = bb[:-1] + str(bp)
            if b.endswith("]:0"):
                b = None        # whether port 0 may be given explicitly is not documented
            else:
                argv += ["-b", bb]
        else:
            b = None
        d = sc.spawn(argv)

        def try_connect():
            if d.poll() is not None:
                raise Violation("spiped %s exited at start: %s" % (" ".join(argv[2:]), sc.err(d)))
            s = socket.socket({"v6": socket.AF_INET6, "unix": socket.AF_UNIX}.get(l, socket.AF_INET))
            try:
                s.connect(laddr if l == "unix" else ("::1" if l == "v6" else "127.0.0.7", lp))
            except OSError:
                s.close()
                return None
            sc.socks.append(s)
            return s
        procs.wait_for(try_connect, what="the daemon to listen on %s" % laddr)
        back.settimeout(10 * procs.SCALE)
        x, peer = back.accept()
        sc.socks.append(x)
        if b is not None:
            check(peer[0] == bip, "with -b %s connections come from %s", bb, peer[0])
            if bp:
                check(peer[1] == bp, "with -b %s connections come from port %d", bb, peer[1])
    return dict(nontrivial=True, classes=["listen-" + l, "target-" + t] + (["bind"] if b else []))


BINS = ("plain",)
TARGETS = [Target("parse", strat, run, "the string denotes an address", quick=(6, 2500, 14), thorough=(8, 100000, 200)),
           Target("real", rstrat, rrun, "every case", quick=(2, 60, 12), thorough=(4, 1000, 100), lib=None, case_timeout=60)]
