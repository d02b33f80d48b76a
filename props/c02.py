"""C02: everything sent after the handshake has the documented packet format."""
import ctypes as C, struct
from hypothesis import strategies as st
from vf import gen, peer, ref, sim, world
from vf.core import Target, check


def strat(tier):
    op = st.one_of(st.tuples(st.just("send"), gen.bigsize if tier == "thorough" else gen.size),
                   st.tuples(st.just("recv"), st.lists(st.one_of(st.sampled_from([1, 1023, 1024]), st.integers(1, 1024)), min_size=1, max_size=5)),
                   st.tuples(st.just("frag"), st.integers(1, 1024), st.integers(1, 1059)),
                   st.tuples(st.just("cap"), st.sampled_from([1, 1059, 1060, 2500, 100000])))
    return st.fixed_dictionaries(dict(role=st.sampled_from(["client", "server"]), key=st.binary(max_size=40),
                                      mode=st.sampled_from(["none", "none", "none", "mine", "theirs", "both"]), seed=gen.seed,
                                      nonce=st.binary(min_size=32, max_size=32), ops=st.lists(op, min_size=1, max_size=14),
                                      io=gen.io_tape, misc=gen.misc_tape))


def fix(case):
    for k in ("key", "nonce"):
        if isinstance(case[k], str):
            case = dict(case, **{k: bytes.fromhex(case[k])})
    return case


def jsonable(s):
    return s.map(lambda c: {k: (v.hex() if isinstance(v, bytes) else v) for k, v in c.items()})


def run(case):
    case = fix(case)
    L = sim.load()
    mode = case["mode"]
    o = peer.One(L, case["role"], case["key"], nopfs=0 if mode in ("mine", "both") else 1, io=case["io"], misc=case["misc"], seed=case["seed"])
    priv = ref.sha256(b"p%d" % case["seed"]) if mode in ("theirs", "both") else None
    snd, rcv = o.handshake(case["nonce"], priv)
    o.connect_plain()
    if mode in ("none", "theirs"):
        check(o.y_theirs == 1, "perfect forward secrecy is off at this end but its public value is not 1")
    nin = nout = 0
    pkts = 0
    stream_in = b""
    for op in case["ops"]:
        if op[0] == "send":
            o.plain_send(world.pattern("in", nin, op[1]))
            nin += op[1]
        elif op[0] == "cap":
            L.sim_set_txcap(o.wire, op[1])
        elif op[0] == "recv":
            for n in op[1]:
                o.push(snd.seal(world.pattern("out", nout, n)))
                nout += n
        elif op[0] == "frag":
            b = snd.seal(world.pattern("out", nout, op[1]))
            nout += op[1]
            o.push(b[:op[2]])
            o.push(b[op[2]:])
        check(not o.conn.dead, "the connection ended (%s) on authentic traffic", o.conn.dead)
        check(bytes(o.got) == world.pattern("out", 0, len(o.got)), "the receiver got bytes which were not sent in authentic packets")
    L.sim_set_txcap(o.wire, 1 << 20)
    for _ in range(5):
        o.pull()
        o.run()
    while True:
        n = len(o.sent), len(o.got)
        o.pull()
        if n == (len(o.sent), len(o.got)):
            break
    check(not o.conn.dead, "the connection ended (%s) on authentic traffic", o.conn.dead)
    check(bytes(o.got) == world.pattern("out", 0, nout), "%d bytes delivered of %d sent in well-formed packets", len(o.got), nout)
    plain = b""
    for i, (pl, pad) in enumerate(peer.decode(rcv, o.sent[320:])):
        check(not any(pad), "packet %d is padded with something else than zero bytes", i)
        plain += pl
        pkts += 1
    check(plain == world.pattern("in", 0, nin), "the packets sent carry %d bytes, not the %d bytes read", len(plain), nin)
    # End of stream and the close also follow the protocol (no extra bytes).
    o.L.sim_feed_eof(o.plain)
    o.pull()
    check(len(o.sent) == 320 + 1060 * pkts, "extra bytes sent at end of stream")
    o.end()
    return dict(nontrivial=pkts >= 2 or nout > 1024, classes=["mode-" + mode, case["role"]] + (["multi"] if pkts > 3 else []))


# --- packet functions directly: any packet number -------------------------------
def vstrat(tier):
    n = st.one_of(st.sampled_from([1, 2, 15, 16, 17, 1023, 1024]), st.integers(1, 1024))
    return st.fixed_dictionaries(dict(seed=gen.seed, lens=st.lists(n, min_size=1, max_size=12), fill=st.sampled_from(["pat", "zero", "ff"]),
                                      start=st.one_of(st.sampled_from([0, 1, 255, 256, 65535, 2**32 - 2, 2**32 - 1, 2**32, 2**40 - 1, 2**63, 2**64 - 14]),
                                                      st.integers(0, 2**64 - 20)), decr=st.booleans(), nopfs=st.booleans()))


_pnum_off = None


def find_pnum(L):
    """Offset of the packet counter inside the (private) key structure: the one
    8-byte word which goes 0, 1, 2, 3 as packets are encrypted.  None if there is
    no such word (then only counters from 0 are checked)."""
    global _pnum_off
    if _pnum_off is not None:
        return _pnum_off if _pnum_off >= 0 else None
    kc, ks, _ = mk(L, 7, 0, 1)
    libc = C.CDLL(None)
    libc.malloc_usable_size.restype = C.c_size_t
    libc.malloc_usable_size.argtypes = [C.c_void_p]
    n = libc.malloc_usable_size(kc)
    cand = set(range(0, n - 7, 8))
    out = C.create_string_buffer(1060)
    for v in range(4):
        m = C.string_at(kc, n)
        cand = {o for o in cand if struct.unpack_from("=Q", m, o)[0] == v}
        L.proto_crypt_enc(sim.buf(b"x"), 1, out, kc)
    L.proto_crypt_free(kc)
    L.proto_crypt_free(ks)
    _pnum_off = cand.pop() if len(cand) == 1 else -1
    return _pnum_off if _pnum_off >= 0 else None


def mk(L, seed, decr, nopfs):
    """Key pair made by the code under test, and the reference's."""
    key = b"key%d" % seed
    K = ref.sha256(key)
    nC, nS = ref.sha256(b"c%d" % seed), ref.sha256(b"s%d" % seed)
    x = ref.sha256(b"x%d" % seed)
    yb = (1).to_bytes(256, "big")
    if nopfs:
        ysc = 1
        y = yb
        priv = b"\0" * 32
    else:
        other = ref.y_of(ref.sha256(b"y%d" % (seed % 5)))
        y = other.to_bytes(256, "big")
        ysc = pow(other, (1 << 258) + int.from_bytes(x, "big"), ref.P14)
        priv = x
    a, b = C.c_void_p(), C.c_void_p()
    l, r = (nS, nC) if decr else (nC, nS)
    rc = L.proto_crypt_mkkeys(world.secret(L, key), l, r, y + b"\0" * 32, priv, nopfs, decr, C.byref(a), C.byref(b))
    check(rc == 0, "key derivation failed")
    kc, ks = ref.session_keys(K, nC, nS, ysc)
    # a = keys for packets from the client, b = for packets from the server
    return a.value, b.value, (kc, ks)


def vrun(case):
    L = sim.load()
    seed, decr, nopfs = case["seed"], int(case["decr"]), int(case["nopfs"])
    f, r, (kc, ks) = mk(L, seed, decr, nopfs)
    # An encrypting end sends with f (client keys); a decrypting end sends with r (server keys).
    off = find_pnum(L)
    mysend, ref_send = (f, kc) if not decr else (r, ks)
    myrecv, ref_recv = (r, ks) if not decr else (f, kc)
    start = case["start"]
    if off is not None:
        for k in (mysend, myrecv):
            C.memmove(k + off, struct.pack("=Q", start), 8)
        ref_send.pnum = ref_recv.pnum = start
    out = C.create_string_buffer(1060)
    pt = C.create_string_buffer(1024)
    pos = 0
    for n in case["lens"]:
        data = world.pattern("v", pos, n) if case["fill"] == "pat" else (b"\0" if case["fill"] == "zero" else b"\xff") * n
        pos += n
        L.proto_crypt_enc(sim.buf(data), n, out, mysend)
        want = ref_send.seal(data)
        check(out.raw == want, "packet number %d with %d bytes differs from the documented encoding", ref_send.pnum - 1, n)
        pkt = ref_recv.seal(data)
        m = L.proto_crypt_dec(sim.buf(pkt), pt, myrecv)
        check(m == n and pt.raw[:n] == data, "well-formed packet number %d with %d bytes was not decoded (%d)", ref_recv.pnum - 1, n, m)
    L.proto_crypt_free(f)
    L.proto_crypt_free(r)
    return dict(nontrivial=len(case["lens"]) >= 2, classes=["big-pnum" if off is not None and start >= 2**32 else "low-pnum"])


# --- long sessions from packet 0 -------------------------------------------------
def lstrat(tier):
    return st.fixed_dictionaries(dict(seed=gen.seed, decr=st.booleans(), n=st.integers(1, 300), len=st.integers(1, 1024)))


def lenum(tier):
    """Past every width a counter might be stored in that can be reached in the time."""
    n = 1100000 if tier == "thorough" else 65700
    return [dict(seed=s, decr=bool(s & 1), n=n, len=1 + s) for s in range(2)]


def lrun(case):
    L = sim.load()
    decr, n, ln = int(case["decr"]), case["n"], case["len"]
    f, r, (kc, ks) = mk(L, case["seed"], decr, 1)
    mysend, ref_send = (f, kc) if not decr else (r, ks)
    myrecv, ref_recv = (r, ks) if not decr else (f, kc)
    out = C.create_string_buffer(1060)
    pt = C.create_string_buffer(1024)
    data = world.pattern("l", 0, ln)
    d = sim.buf(data)
    near = lambda i: i < 3 or i > n - 4 or any(abs(i - (1 << k)) <= 2 for k in range(7, 40)) or i % 997 == 0
    try:
        for i in range(n):
            L.proto_crypt_enc(d, ln, out, mysend)
            if near(i):
                ref_send.pnum = i
                check(out.raw == ref_send.seal(data), "packet number %d with %d bytes differs from the documented encoding", i, ln)
            ref_recv.pnum = i
            m = L.proto_crypt_dec(sim.buf(ref_recv.seal(data)), pt, myrecv)
            check(m == ln and pt.raw[:ln] == data, "well-formed packet number %d with %d bytes was not decoded (%d)", i, ln, m)
    finally:
        L.proto_crypt_free(f)
        L.proto_crypt_free(r)
    return dict(nontrivial=n > 2, classes=["beyond-16-bits"] if n > 65536 else [])


TARGETS = [
    Target("peer", lambda t: jsonable(strat(t)), run, "at least two packets were sent, or more than one packet's worth of payload received",
           quick=(5, 600, 14), thorough=(8, 20000, 240)),
    Target("long", lstrat, lrun, "at least three packets each way", quick=(2, 30, 12), thorough=(2, 300, 60), enum=lenum, case_timeout=800),
    Target("packet", vstrat, vrun, "at least two packets each way", quick=(3, 500, 12), thorough=(8, 20000, 120)),
]
ASSUMPTIONS = ["padding bytes are zero, as in DESIGN.md"]
