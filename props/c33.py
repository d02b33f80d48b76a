"""C33: keys and the like are erased when they are no longer needed."""
import ctypes as C, os
from hypothesis import strategies as st
from vf import build, core, gen, peer, ref, sim, world
from vf.core import Target, check

# --- on the stack, and in contexts -----------------------------------------------
_er = {}


def er(kind):
    if kind not in _er:
        l = C.CDLL(build.eraselib(kind))
        l.er_run.argtypes = [C.c_int, C.c_char_p, C.c_size_t, C.c_char_p, C.c_size_t, C.c_size_t, C.c_char_p, C.c_size_t]
        l.er_left.argtypes = [C.c_char_p, C.c_size_t]
        l.er_used.restype = l.er_entpos.restype = C.c_size_t
        l.er_entropy.argtypes = [C.c_char_p, C.c_size_t]
        l.er_aeskey.argtypes = [C.c_char_p, C.c_size_t]
        _er[kind] = l
    return _er[kind]


def swap(b):
    """As the words a little-endian machine works on."""
    b = b[:len(b) // 4 * 4]
    return b"".join(b[i:i + 4][::-1] for i in range(0, len(b), 4))


def pieces(b):
    """What of this value must not be found anywhere: parts of it, also as words."""
    out = []
    for i in range(0, len(b) - 15, 16):
        x = b[i:i + 16]
        if len(set(x)) >= 8:        # otherwise too plain to be told from anything else
            out += [x, swap(x)]
    return out


def padded(b):
    n = len(b)
    return b + b"\x80" + b"\0" * ((55 - n) % 64) + (8 * n).to_bytes(8, "big")


def hmac_secrets(k):
    """What computing an HMAC with this key has to handle, by name."""
    out = {}
    if len(k) > 64:
        k = ref.sha256(k)
        out["the hashed key"] = k
    elif len(k) >= 32:
        out["the key"] = k[:32]
    k = k + b"\0" * (64 - len(k))
    for name, x in (("inner", 0x36), ("outer", 0x5c)):
        p = bytes(c ^ x for c in k)
        out["the %s padded key" % name] = p[:32]
        out["the end of the %s padded key" % name] = p[32:]
    return out


def run(case):
    return core.forked(lambda: scenario(case), 60)


def scenario(case):
    l = er(case["kind"])
    f = case["f"]
    rnd = lambda tag, n: world.pattern("er%d%s" % (case["seed"], tag), 0, n)
    sec = {}
    a = rnd("a", case["n0"])
    b = rnd("b", case["n1"])
    out = C.create_string_buffer(max(case["ol"], 32))
    step = max(case["step"], 1)
    if f == "sha":
        rc = l.er_run(0, a, len(a), b"", 0, 0, out, 32)
        want = ref.sha256(a)
    elif f == "shactx":
        rc = l.er_run(1, a, len(a), b"", step, 0, out, 32)
        want = ref.sha256(a)
    elif f == "hmac":
        rc = l.er_run(2, a, len(a), b, len(b), 0, out, 32)
        want = ref.hmac256(a, b)
    elif f == "hmacctx":
        rc = l.er_run(3, a, len(a), b, len(b), step, out, 32)
        want = ref.hmac256(a, b)
    elif f == "hmacinit":
        rc = l.er_run(6, a, len(a), b"", 0, 0, out, 32)
        want = b""
    elif f == "hmacfinal":
        l.er_run(6, a, len(a), b"", 0, 0, out, 32)
        l.er_run(8, b, len(b), b"", 0, 0, out, 32)
        rc = l.er_run(9, b"", 0, b"", 0, 0, out, 32)
        want = ref.hmac256(a, b)
    elif f == "aesctr":
        key = rnd("k", 32)
        l.er_aeskey(key, 32)
        out = C.create_string_buffer(len(a) + 1)
        rc = l.er_run(10, a, len(a), b"", 0, 0, out, len(a))
        want = ref.aes_ctr(key, 7, a)
        sec["the last of the keystream"] = last_keystream(key, 7, len(a))
        sec["the AES key"] = key
    elif f == "shaupd":
        rc = l.er_run(7, a, len(a), b"", step, 0, out, 32)
        want = b""
    elif f == "pbkdf2":
        rc = l.er_run(4, a, len(a), b, len(b), case["iter"], out, case["ol"])
        want = ref.pbkdf2(a, b, case["iter"], case["ol"])
    else:
        ent = rnd("e", 48 + 32 * 64)
        l.er_entropy(ent, len(ent))
        rc = 0
        d = ref.HmacDrbg(ent[:48])
        # Earlier requests, which leave a state behind.
        for i in range(case["iter"] - 1):
            l.er_run(5, b"", 0, b"", 0, 0, C.create_string_buffer(8), 8)
            if d.counter > 256:
                d.reseed(ent[48:80])
            d.generate(8)
        reseed = d.counter > 256
        sec["the seed"] = ent[:48]
        sec["part of the seed"] = ent[:32]
        if reseed:
            sec["the new seed"] = ent[48:80]
            d.reseed(ent[48:80])
        K, V = d.K, d.V
        sec["the generator's key"], sec["the generator's value"] = K, V
        rc = l.er_run(5, b"", 0, b"", 0, 0, out, case["ol"])
        want = d.generate(case["ol"])
        sec["the generator's new key"], sec["the generator's new value"] = d.K, d.V
        for k in (K, d.K):
            sec.update({x + " of the generator": y for x, y in hmac_secrets(k).items()})
    if f.startswith("sha"):
        p = padded(a)
        for name, blk in (("first", p[:64]), ("last", p[-64:])):
            sec["the %s block of the message" % name] = blk[:32]
            sec["the second half of the %s block of the message" % name] = blk[32:]
        if want:
            sec["the state"] = swap(want)
    elif f in ("hmac", "hmacctx", "hmacinit", "hmacfinal"):
        sec.update(hmac_secrets(a))
        k = ref.sha256(a) if len(a) > 64 else a
        sec["the inner hash"] = ref.sha256(bytes(c ^ 0x36 for c in k + b"\0" * (64 - len(k))) + b)
    elif f == "pbkdf2":
        sec.update(hmac_secrets(a))
        t = u = ref.hmac256(a, b + b"\0\0\0\1")
        sec["the first step"] = u
        for i in range(case["iter"] - 1):
            u = ref.hmac256(a, u)
            t = bytes(x ^ y for x, y in zip(t, u))
        sec["the last step"] = u
        nb = (case["ol"] + 31) // 32
        sec["the last block"] = ref.pbkdf2(a, b, case["iter"], nb * 32)[-32:]
    check(out.raw[:len(want)] == want or f == "drbg", "wrong result")       # (C08's and C11's business)
    if f == "drbg":
        check(rc == 0 and out.raw[:len(want)] == want, "wrong random bytes")
    else:
        check(rc == 0, "the context still holds something after the final step")
    used = l.er_used()
    for name, x in sec.items():
        for y in pieces(x):
            check(not l.er_left(y, len(y)), "%s, or a part of it, is left on the stack by %s", name, f)
    return dict(nontrivial=used > 500 and bool(sec), classes=[f + "-" + case["kind"]])


def strat(tier):
    n = st.one_of(st.sampled_from([0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 119, 128]), st.integers(0, 300))
    return st.fixed_dictionaries(dict(f=st.sampled_from(["sha", "shactx", "shaupd", "hmac", "hmacinit", "hmacfinal", "aesctr", "hmacctx", "pbkdf2", "drbg"]), kind=st.sampled_from(["soft", "sse", "native"]),
                                      n0=n, n1=n, ol=st.one_of(st.sampled_from([1, 31, 32, 33, 64]), st.integers(1, 200)), iter=st.sampled_from([1, 1, 2, 3, 10, 257]), step=st.integers(1, 200), seed=gen.seed)
                                 ).map(lambda c: dict(c, kind="soft") if c["f"] == "drbg" else c)


# --- on the heap -------------------------------------------------------------------
class Secrets:
    """Values which must not be in memory which is given back."""

    def __init__(self, L):
        self.L, self.names = L, []
        L.sim_secrets_clear()

    def add(self, name, b):
        for x in pieces(b):
            check(self.L.sim_secret_add(x, len(x)) >= 0, "harness: too many secrets")
            self.names.append(name)

    def look(self):
        for i, n in enumerate(self.names):
            check(not self.L.sim_secret_hits(i), "memory was given back which still holds %s", n)

    def clear(self):
        self.L.sim_secrets_clear()


def aes_secrets(s, name, key):
    s.add(name, key)


def last_keystream(key, nonce, n):
    """The keystream block in use after n bytes."""
    if n % 16 == 0:
        return b""
    return ref.aes_ctr(key, nonce, b"\0" * 16, skip=n // 16 * 16)


def hrun(case):
    L = sim.load(case["lib"])
    sim.fresh_sim(L, case["io"], case["misc"], case["seed"])
    s = Secrets(L)
    rnd = lambda tag, n: world.pattern("he%d%s" % (case["seed"], tag), 0, n)
    try:
        return HEAP[case["f"]](L, case, s, rnd)
    finally:
        s.clear()


def h_secret(L, case, s, rnd):
    data = rnd("k", case["n"])
    s.add("the shared secret", ref.sha256(data))
    f = world.keyfile(data)
    K = L.proto_crypt_secret(f.encode())
    os.unlink(f)
    check(K, "a key file cannot be read")
    check(L.sim_secret_hits(0) == 0, "memory was given back which still holds the shared secret")
    n0 = L.sim_frees_scanned
    L.proto_crypt_secret_free(K)
    s.look()
    return dict(nontrivial=L.sim_frees_scanned > n0, classes=["secret"])


def h_aes(L, case, s, rnd):
    n = 16 if case["n"] % 3 == 0 else 32
    key = rnd("k", n)
    aes_secrets(s, "an AES key", key)
    nonce = case["seed"]
    k = L.crypto_aes_key_expand(key, n)
    blk = C.create_string_buffer(16)
    L.crypto_aes_encrypt_block(rnd("b", 16), blk, k)
    st_ = None
    for m in case["sizes"]:
        st_ = L.crypto_aesctr_init(k, nonce)
        out = C.create_string_buffer(m + 1)
        L.crypto_aesctr_stream(st_, bytes(m), out, m)
        ks = last_keystream(key, nonce, m)
        s.add("keystream", ks)
        L.crypto_aesctr_free(st_)
        check(out.raw[:m] == ref.aes_ctr(key, nonce, bytes(m)), "wrong keystream")
        L.crypto_aesctr_buf(k, nonce, bytes(m), out, m)
        nonce += 1
    s.look()
    n0 = L.sim_frees_scanned
    L.crypto_aes_key_free(k)
    s.look()
    return dict(nontrivial=L.sim_frees_scanned > n0, classes=["aes-" + case["lib"]])


def h_dh(L, case, s, rnd):
    """Private values and blinding of Diffie-Hellman."""
    pub, priv, key = (C.create_string_buffer(256 + 8) for _ in range(3))
    log = C.create_string_buffer(1024)

    def drawn(f):
        """The random values which a call draws."""
        L.sim_ent_seed(case["seed"])
        check(f() == 0, "Diffie-Hellman fails")
        n = L.sim_ent_log(log, 1024)
        L.sim_ent_seed(case["seed"])
        return [log.raw[i:i + 32] for i in range(0, n - n % 32, 32)]
    vals = drawn(lambda: L.crypto_dh_generate(pub, priv))
    x = priv.raw[:32]
    check(x in vals, "the private value is not a random value")
    other = ref.y_of(rnd("o", 32)).to_bytes(256, "big")

    def add(x, blind, who):
        xi, bi = int.from_bytes(x, "big"), int.from_bytes(blind, "big")
        p = xi + (1 << 258)
        b = bi + (1 << 256)
        for name, v in (("the private value", xi), ("the private exponent", p), ("the blinding exponent", b), ("the blinding value", bi), ("the blinded exponent", p - b)):
            s.add("%s (%s)" % (name, who), v.to_bytes((v.bit_length() + 7) // 8, "big"))
    # Known only now: repeat with the same values, being watched.
    for v in vals:
        if v != x:
            add(x, v, "generating")
    n0 = L.sim_bn_frees
    check(L.crypto_dh_generate(pub, priv) == 0 and priv.raw[:32] == x, "harness: not repeatable")
    for v in drawn(lambda: L.crypto_dh_compute(other, x, key)):
        add(x, v, "computing")
    ysc = pow(int.from_bytes(other, "big"), (1 << 258) + int.from_bytes(x, "big"), ref.P14).to_bytes(256, "big")
    check(key.raw[:256] == ysc, "wrong Diffie-Hellman result")
    s.add("the shared result", ysc)
    check(L.crypto_dh_compute(other, x, key) == 0, "no Diffie-Hellman result")
    s.look()
    return dict(nontrivial=L.sim_bn_frees > n0, classes=["dh"])


def h_conn(L, case, s, rnd):
    """A connection's session keys, however it ends."""
    role = case["role"]
    o = peer.One(L, role, b"erase", nopfs=1 - case["pfs"], io=case["io"], misc=case["misc"], seed=case["seed"])
    nonce = rnd("n", 32)
    snd, rcv = o.handshake(nonce, rnd("p", 32) if case["pfs"] else None)
    for name, k in (("of what is received", snd), ("of what is sent", rcv)):
        aes_secrets(s, "the AES key " + name, k.E)
    o.connect_plain()
    n0 = L.sim_frees_scanned
    for m in case["sizes"]:
        k = 0
        if m % 2:
            o.plain_send(rnd("d", m % 3000 + 1))
        else:
            o.push(snd.seal(rnd("w", m % 1024 + 1)))
    end = case["end"]
    if end == "eof":
        L.sim_feed_eof(o.wire)
        L.sim_feed_eof(o.plain)
        o.run()
    elif end == "bad":
        b = bytearray(snd.seal(b"x"))
        b[5] ^= 1
        o.push(bytes(b))
    elif end == "reset":
        L.sim_feed_err(o.plain if case["seed"] % 2 else o.wire, 104, 1)
        o.run()
    if end != "drop":
        check(o.conn.dead, "the connection did not end")
    o.end()
    s.look()
    return dict(nontrivial=L.sim_frees_scanned > n0, classes=["conn-%s-%s" % (role, end)])


HEAP = {"secret": h_secret, "aes": h_aes, "dh": h_dh, "conn": h_conn}


def hstrat(tier):
    return st.fixed_dictionaries(dict(f=st.sampled_from(["secret", "aes", "aes", "dh", "conn", "conn", "conn"]), lib=st.sampled_from(["sim", "soft"]), io=gen.io_tape, misc=gen.misc_tape, seed=gen.seed,
                                      n=st.integers(0, 5000), sizes=st.lists(st.one_of(st.sampled_from([1, 15, 16, 17]), st.integers(1, 3000)), max_size=6),
                                      role=st.sampled_from(["client", "server"]), pfs=st.integers(0, 1), end=st.sampled_from(["drop", "eof", "bad", "reset"]))
                                 ).map(lambda c: dict(c, lib="sim") if c["f"] in ("conn", "dh", "secret") else c)


LIBS = ("sim", "soft")
BINS = ("erase",)
TARGETS = [Target("stack", strat, run, "the function used its stack and had secrets to lose", quick=(3, 500, 12), thorough=(8, 20000, 200), lib=None, case_timeout=90),
           Target("heap", hstrat, hrun, "memory which had held secrets was given back", quick=(5, 400, 14), thorough=(8, 20000, 200))]
ASSUMPTIONS = ["copies which a compiler makes in registers, and OpenSSL's own scratch space, are not looked at"]
