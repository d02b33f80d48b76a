"""C09: AES and AES-CTR are correct for every key, nonce, position and chunking."""
import ctypes as C, hashlib
from hypothesis import strategies as st
from vf import gen, ref, sim
from vf.core import Target, check

nonce = st.one_of(st.sampled_from([0, 1, 255, 256, 2**32 - 1, 2**32, 2**63, 2**64 - 1]), st.integers(0, 2**64 - 1))
piece = st.one_of(st.integers(0, 3), st.sampled_from([15, 16, 17, 31, 32, 33, 127, 128, 1028]), st.integers(0, 700))
big = st.sampled_from([4095, 4096, 4097, 8192, 65536 + 16])


def strat(tier):
    seg = st.fixed_dictionaries(dict(nonce=nonce, pieces=st.lists(piece, max_size=10), skip=st.one_of(st.just(0), st.just(0), st.integers(0, 64), big), inplace=st.booleans(), init=st.sampled_from(["init", "init2"])))
    return st.fixed_dictionaries(dict(kl=st.sampled_from([16, 32, 32, 32]), seed=gen.seed, key=st.sampled_from(["rand", "rand", "zero", "ff"]), segs=st.lists(seg, min_size=1, max_size=4),
                                      align=st.integers(0, 15), buf=st.one_of(st.sampled_from([1028, 0, 1, 16]), st.integers(0, 2000)), bufnonce=nonce, blocks=st.integers(0, 3)))


def mkrun(lib):
    def run(case):
        L = sim.load(lib)
        key = {"rand": hashlib.shake_128(b"k%d" % case["seed"]).digest(case["kl"]), "zero": b"\0" * case["kl"], "ff": b"\xff" * case["kl"]}[case["key"]]
        K = L.crypto_aes_key_expand(key, len(key))
        check(bool(K), "key expansion failed")
        for i in range(case["blocks"]):
            b = hashlib.shake_128(b"b%d-%d" % (case["seed"], i)).digest(16)
            o = C.create_string_buffer(17 + case["align"])
            p = C.addressof(o) + case["align"]
            L.crypto_aes_encrypt_block(sim.buf(b), p, K)
            check(C.string_at(p, 16) == ref.aes_block(key, b), "AES-%d block encryption is wrong", 8 * len(key))
            C.memmove(p, b, 16)
            L.crypto_aes_encrypt_block(p, p, K)
            check(C.string_at(p, 16) == ref.aes_block(key, b), "AES-%d in-place block encryption is wrong", 8 * len(key))
        tot = 0
        s = None
        for g in case["segs"]:
            if g["init"] == "init2" and s is None:
                s = L.crypto_aesctr_alloc()
                check(bool(s), "allocation failed")
            if g["init"] == "init2":
                L.crypto_aesctr_init2(s, K, g["nonce"])     # reused stream
            else:
                if s is not None:
                    L.crypto_aesctr_free(s)
                s = L.crypto_aesctr_init(K, g["nonce"])
                check(bool(s), "allocation failed")
            n = g["skip"] + sum(g["pieces"])
            d = hashlib.shake_128(b"p%d" % case["seed"]).digest(n)
            want = ref.aes_ctr(key, g["nonce"], d)
            src = C.create_string_buffer(n + case["align"] + 1)
            dst = C.create_string_buffer(n + case["align"] + 9)
            pi, po = C.addressof(src) + case["align"], C.addressof(dst) + (case["align"] * 7) % 8
            C.memmove(pi, d, n)
            off = 0
            for k in ([g["skip"]] if g["skip"] else []) + g["pieces"]:
                if g["inplace"]:
                    L.crypto_aesctr_stream(s, pi + off, pi + off, k)
                else:
                    L.crypto_aesctr_stream(s, pi + off, po + off, k)
                off += k
            got = C.string_at(pi if g["inplace"] else po, n)
            if got != want:
                i = next(j for j in range(n) if got[j] != want[j])
                check(False, "AES-%d-CTR output differs at byte %d (nonce %d, pieces %r)", 8 * len(key), i, g["nonce"], [g["skip"]] + g["pieces"])
            tot += n
        if s is not None:
            L.crypto_aesctr_free(s)
        n = case["buf"]
        d = hashlib.shake_128(b"q%d" % case["seed"]).digest(n)
        src = C.create_string_buffer(d, n + 1)
        dst = C.create_string_buffer(b"\x5a" * (n + 8), n + 8)
        L.crypto_aesctr_buf(K, case["bufnonce"], src, dst, n)
        check(dst.raw[:n] == ref.aes_ctr(key, case["bufnonce"], d), "one-shot AES-CTR of %d bytes is wrong (nonce %d)", n, case["bufnonce"])
        check(dst.raw[n:] == b"\x5a" * 8, "one-shot AES-CTR writes past the end of its output")
        L.crypto_aes_key_free(K)
        return dict(nontrivial=tot >= 32 and any(len(g["pieces"]) > 1 for g in case["segs"]), classes=["aes%d" % (8 * len(key)), "over4k" if tot > 4096 else "short"])
    return run


def long_enum(tier):
    for lib in ("sim",):
        yield {"mb": 2 if tier == "quick" else 40, "piece": 1000003}
        yield {"mb": 1, "piece": 65537}


def long_run(case):
    """Many blocks: the counter's carries."""
    L = sim.load("sim")
    key = bytes(range(32))
    K = L.crypto_aes_key_expand(key, 32)
    s = L.crypto_aesctr_init(K, 2**64 - 2)
    n = case["mb"] << 20
    d = hashlib.shake_128(b"long").digest(n)
    b = C.create_string_buffer(d, n)
    off = 0
    while off < n:
        k = min(case["piece"], n - off)
        L.crypto_aesctr_stream(s, C.addressof(b) + off, C.addressof(b) + off, k)
        off += k
    L.crypto_aesctr_free(s)
    L.crypto_aes_key_free(K)
    check(b.raw == ref.aes_ctr(key, 2**64 - 2, d), "AES-CTR over %d MB is wrong", case["mb"])
    return dict(nontrivial=True, classes=["long"])


# --- positions which cannot be reached in the time, and several streams at once ---
FAR = [2**k for k in (12, 16, 20, 24, 31, 32, 35, 36, 37, 40, 44, 48, 52, 56, 59, 60, 63)]


def far_strat(tier):
    st1 = st.fixed_dictionaries(dict(nonce=nonce, before=st.lists(st.integers(1, 4095), max_size=3),
                                     far=st.one_of(st.sampled_from(FAR), st.integers(1, 2**52 - 1).map(lambda k: k << 12)), back=st.integers(0, 2)))
    return st.fixed_dictionaries(dict(kl=st.sampled_from([16, 32, 32]), seed=gen.seed, streams=st.lists(st1, min_size=1, max_size=3),
                                      ops=st.lists(st.tuples(st.integers(0, 2), piece), min_size=1, max_size=12)))


def find_ctr(L, K):
    """Where a stream keeps the number of bytes it has processed: the one
    aligned word which always equals it; None if there is no such word."""
    s = L.crypto_aesctr_init(K, 0x1122334455667788)
    libc = C.CDLL(None)
    libc.malloc_usable_size.restype = C.c_size_t
    libc.malloc_usable_size.argtypes = [C.c_void_p]
    size = libc.malloc_usable_size(s)
    cand = set(range(0, size - 7, 8))
    b = C.create_string_buffer(5000)
    tot = 0
    for k in (0, 5, 11, 16, 37, 300, 4096, 3):
        L.crypto_aesctr_stream(s, b, b, k)
        tot += k
        cand = {o for o in cand if C.string_at(s + o, 8) == tot.to_bytes(8, "little")}
    L.crypto_aesctr_free(s)
    return cand.pop() if len(cand) == 1 else None


def mkfar(lib):
    def run(case):
        L = sim.load(lib)
        key = hashlib.shake_128(b"k%d" % case["seed"]).digest(case["kl"])
        K = L.crypto_aes_key_expand(key, len(key))
        off = find_ctr(L, K)
        S = []
        b = C.create_string_buffer(5000)
        for g in case["streams"]:
            s = L.crypto_aesctr_init(K, g["nonce"])
            check(bool(s), "allocation failed")
            pos = 0
            # A whole number of 256 blocks, so that no part of a block counter is kept over the jump.
            for k in g["before"]:
                if pos + k < 4096:
                    L.crypto_aesctr_stream(s, b, b, k)
                    pos += k
            L.crypto_aesctr_stream(s, b, b, 4096 - pos)
            pos = 4096
            if off is not None and g["far"] - 4096 * g["back"] > 0:
                pos = g["far"] - 4096 * g["back"]
                C.memmove(s + off, pos.to_bytes(8, "little"), 8)
            S.append([s, g["nonce"], pos])
            if g["back"] and off is not None:       # up to the boundary itself
                n = 4096 * g["back"] - 16
                S[-1][2] += step(L, key, S[-1], case["seed"], n)
        used = set()
        for i, n in case["ops"]:
            t = S[i % len(S)]
            used.add(i % len(S))
            t[2] += step(L, key, t, case["seed"], n)
        for t in S:
            L.crypto_aesctr_free(t[0])
        L.crypto_aes_key_free(K)
        return dict(nontrivial=len(used) > 1 or off is not None, classes=(["far"] if off is not None else ["near"]) + (["interleaved"] if len(used) > 1 else []))
    return run


def step(L, key, t, seed, n):
    s, nonce_, pos = t
    d = hashlib.shake_128(b"f%d" % seed).digest(n)
    src, dst = C.create_string_buffer(d, n + 1), C.create_string_buffer(n + 1)
    L.crypto_aesctr_stream(s, src, dst, n)
    check(dst.raw[:n] == ref.aes_ctr(key, nonce_, d, skip=pos), "AES-%d-CTR output of %d bytes from position %d (nonce %d) is wrong", 8 * len(key), n, pos, nonce_)
    return n


RULE = "at least two blocks of key stream used in more than one piece"
TARGETS = [
    Target("native", strat, mkrun("sim"), RULE, quick=(4, 1500, 10), thorough=(4, 100000, 150)),
    Target("portable", strat, mkrun("soft"), RULE + " (all CPU features hidden)", quick=(3, 1500, 10), thorough=(4, 100000, 150), lib="soft"),
    Target("far", far_strat, mkfar("sim"), "two streams were used in turn, or a far position was reached", quick=(2, 300, 7), thorough=(3, 20000, 100)),
    Target("farportable", far_strat, mkfar("soft"), "two streams were used in turn, or a far position was reached (all CPU features hidden)", quick=(2, 300, 7), thorough=(3, 20000, 100), lib="soft"),
    Target("long", None, long_run, "over 1 MB of key stream", quick=(1, 0, 30), thorough=(1, 0, 100), enum=long_enum, case_timeout=100),
]
ASSUMPTIONS = ["only the code paths which this CPU can run are exercised (AES-NI and portable); ARM code is not"]
