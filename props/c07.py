"""C07: the shared secret is SHA256 of the whole key file; unreadable files are refused."""
import ctypes as C, os, socket, struct, threading, time
from hypothesis import strategies as st
from vf import gen, ref, sim
from vf.core import Target, check

libc = C.CDLL(None)
libc.freopen.restype = C.c_void_p
libc.mmap.restype = C.c_void_p
libc.mmap.argtypes = [C.c_void_p, C.c_size_t, C.c_int, C.c_int, C.c_int, C.c_long]
libc.munmap.argtypes = [C.c_void_p, C.c_size_t]
libc.fileno.argtypes = [C.c_void_p]
libc.freopen.argtypes = [C.c_char_p, C.c_char_p, C.c_void_p]


def secret_of(L, K, seed):
    """What the end derives from its secret, through the handshake MAC keys."""
    n1, n2 = ref.sha256(b"l%d" % seed), ref.sha256(b"r%d" % seed)
    out = []
    for decr in (0, 1):
        l, r = C.create_string_buffer(32), C.create_string_buffer(32)
        L.proto_crypt_dhmac(K, n1, n2, l, r, decr)
        out.append((l.raw, r.raw))
    return n1, n2, out


def expect(K, n1, n2):
    c, s = ref.dhmacs(K, n1, n2)        # decr 0: local is the client
    c2, s2 = ref.dhmacs(K, n2, n1)      # decr 1: local is the server
    return [(c, s), (s2, c2)]


def strat(tier):
    n = st.one_of(st.sampled_from([0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 20000]), st.integers(0, 300), st.integers(0, 70000))
    return st.fixed_dictionaries(dict(n=n, fill=st.sampled_from(["rand", "zero", "nl", "text", "ff"]), tail=st.sampled_from(["", "\n", "\0", "\r\n", "\x1a", "\xff"]),
                                      via=st.sampled_from(["file", "file", "fifo", "stdin", "stdinpipe"]), chunks=st.lists(st.integers(1, 5000), max_size=6), seed=gen.seed))


def run(case):
    L = sim.load()
    L.sim_enabled = 0
    n, seed = case["n"], case["seed"]
    import hashlib
    data = {"rand": lambda: hashlib.shake_128(b"%d" % seed).digest(n), "zero": lambda: b"\0" * n, "nl": lambda: b"\n" * n,
            "text": lambda: (b"secret key\n" * (n // 11 + 1))[:n], "ff": lambda: b"\xff" * n}[case["fill"]]() + case["tail"].encode("latin1")
    d = os.environ.get("VF_TMP", "/tmp")
    path = os.path.join(d, "kf")
    th = None
    try:
        if case["via"] in ("file", "stdin"):
            with open(path, "wb") as f:
                f.write(data)
        else:
            os.mkfifo(path)

            def feed():
                with open(path, "wb", buffering=0) as f:
                    off = 0
                    i = 0
                    while off < len(data):
                        k = case["chunks"][i % len(case["chunks"])] if case["chunks"] else len(data)
                        f.write(data[off:off + k])
                        off += k
                        i += 1
            th = threading.Thread(target=feed, daemon=True)
            th.start()
        if case["via"].startswith("stdin"):
            check(libc.freopen(path.encode(), b"r", C.c_void_p.in_dll(libc, "stdin").value), "freopen")
            K = L.proto_crypt_secret(b"-")
        else:
            K = L.proto_crypt_secret(path.encode())
        if th:
            th.join(20)
    finally:
        try:
            os.unlink(path)
        except OSError:
            pass
    check(bool(K), "reading a key of %d bytes (%s) failed", len(data), case["via"])
    n1, n2, got = secret_of(L, K, seed)
    check(got == expect(ref.sha256(data), n1, n2), "the secret is not SHA256 of the %d bytes of the key (%s)", len(data), case["via"])
    L.proto_crypt_secret_free(K)
    return dict(nontrivial=len(data) > 0, classes=[case["via"], "big" if len(data) > 4096 else "small"])


def bad_enum(tier):
    for k in ("missing", "dir", "emptyname", "dangling", "notdir", "loop", "ioerror"):
        yield {"kind": k}
    for k in ("dir", "ioerror", "closed", "writeonly"):
        yield {"kind": "stdin-" + k}


def set_stdin(fd):
    """Make the C library's standard input read from fd (consumed)."""
    f = C.c_void_p.in_dll(libc, "stdin").value
    check(libc.freopen(b"/dev/null", b"r", f), "freopen")
    os.dup2(fd, libc.fileno(C.c_void_p(f)))
    os.close(fd)


def broken_stdin(kind, data):
    """A descriptor which gives the data and then an error; None if that cannot be had here."""
    if kind == "memory":                # the end of a mapping
        m = libc.mmap(None, 1 << 20, 3, 0x22, -1, 0)
        end = m + (1 << 20) - 4096
        libc.munmap(C.c_void_p(end), 4096)
        if len(data) > (1 << 20) - 4096:
            return None
        C.memmove(end - len(data), data, len(data))
        fd = os.open("/proc/self/mem", os.O_RDONLY)
        os.lseek(fd, end - len(data), os.SEEK_SET)
        return fd
    ls = socket.socket()
    ls.bind(("127.0.0.1", 0))
    ls.listen(1)
    c = socket.create_connection(ls.getsockname())
    s, _ = ls.accept()
    ls.close()
    c.sendall(data)
    if kind == "reset":                 # a connection which is broken off
        c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        c.close()
        time.sleep(0.01)
    else:                               # nothing more there for now
        s.setblocking(False)
        keepopen.append(c)
        time.sleep(0.01)
    return s.detach()


keepopen = []


def part_strat(tier):
    n = st.one_of(st.sampled_from([0, 1, 32, 4095, 4096, 4097, 8191, 8192, 8193, 16384]), st.integers(0, 20000))
    return st.fixed_dictionaries(dict(n=n, kind=st.sampled_from(["memory", "reset", "reset", "again"]), seed=gen.seed))


def part_run(case):
    L = sim.load()
    L.sim_enabled = 0
    fd = broken_stdin(case["kind"], os.urandom(case["n"]))
    if fd is None:
        return dict(nontrivial=False)
    try:
        set_stdin(fd)
        K = L.proto_crypt_secret(b"-")
        check(not K, "a key of which only the first %d bytes could be read before an error (%s) was accepted", case["n"], case["kind"])
    finally:
        while keepopen:
            keepopen.pop().close()
    return dict(nontrivial=case["n"] > 0, classes=[case["kind"]])


def bad_run(case):
    L = sim.load()
    L.sim_enabled = 0
    d = os.path.join(os.environ.get("VF_TMP", "/tmp"), "bad")
    os.makedirs(d, exist_ok=True)
    k = case["kind"]
    if k.startswith("stdin-"):
        fd = os.open(d, os.O_RDONLY) if k == "stdin-dir" else os.open("/proc/self/mem", os.O_RDONLY) if k == "stdin-ioerror" else os.open("/dev/null", os.O_WRONLY)
        set_stdin(fd)
        if k == "stdin-closed":
            os.close(libc.fileno(C.c_void_p(C.c_void_p.in_dll(libc, "stdin").value)))
        check(not L.proto_crypt_secret(b"-"), "a key on standard input which cannot be read (%s) was accepted", k)
        return dict(nontrivial=True, classes=["bad-" + k])
    p = os.path.join(d, k)
    if k == "dir":
        os.makedirs(p, exist_ok=True)
    elif k == "emptyname":
        p = ""
    elif k == "dangling":
        if not os.path.islink(p):
            os.symlink(os.path.join(d, "nowhere"), p)
    elif k == "notdir":
        open(p, "w").close()
        p += "/x"
    elif k == "loop":
        if not os.path.islink(p):
            os.symlink(p, p)
    elif k == "ioerror":
        p = "/proc/self/mem"        # opens, but reading at offset 0 fails
    for _ in range(3):
        check(not L.proto_crypt_secret(p.encode()), "a key file which cannot be read (%s) was accepted", k)
    return dict(nontrivial=True, classes=["bad-" + k])


TARGETS = [
    Target("secret", strat, run, "the key is not empty", quick=(4, 700, 12), thorough=(8, 20000, 120)),
    Target("unreadable", None, bad_run, "the key file cannot be read", quick=(1, 0, 10), thorough=(1, 0, 10), enum=bad_enum),
    Target("broken", part_strat, part_run, "some bytes are read before the error", quick=(1, 400, 8), thorough=(2, 6000, 40)),
]
