"""C08: SHA256, HMAC-SHA256 and PBKDF2-SHA256 are correct for all inputs, however they are fed."""
import ctypes as C, hashlib, mmap
from hypothesis import strategies as st
from vf import gen, ref, sim
from vf.core import Target, check

ln = st.one_of(st.integers(0, 130), st.sampled_from([55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 191, 192, 511, 512, 1028, 1036]), st.integers(0, 5000))
fill = st.sampled_from(["rand", "rand", "zero", "ff"])


def data(seed, n, fl):
    return hashlib.shake_128(b"d%d" % seed).digest(n) if fl == "rand" else (b"\0" if fl == "zero" else b"\xff") * n


def strat(tier):
    return st.one_of(
        st.fixed_dictionaries(dict(k=st.just("sha"), n=ln, fill=fill, align=st.integers(0, 16), cuts=st.lists(st.one_of(st.integers(0, 3), st.integers(0, 200)), max_size=12), seed=gen.seed, dup=st.booleans())),
        st.fixed_dictionaries(dict(k=st.just("hmac"), n=ln, fill=fill, kn=st.one_of(st.sampled_from([0, 1, 32, 63, 64, 65, 128]), st.integers(0, 200)), align=st.integers(0, 16),
                                   cuts=st.lists(st.one_of(st.integers(0, 3), st.integers(0, 200)), max_size=12), seed=gen.seed, dup=st.booleans())),
        st.fixed_dictionaries(dict(k=st.just("pbkdf2"), pn=st.one_of(st.sampled_from([0, 32, 64, 65]), st.integers(0, 100)), sn=st.one_of(st.sampled_from([0, 64, 320, 51, 52, 115, 116]), st.integers(0, 400)),
                                   c=st.one_of(st.just(1), st.integers(1, 6)), dk=st.one_of(st.sampled_from([1, 31, 32, 33, 64, 128]), st.integers(1, 300)), seed=gen.seed, align=st.integers(0, 16))))


def at(b, align):
    """Copy of b at the given misalignment, in a buffer of exactly that size."""
    raw = C.create_string_buffer(len(b) + align + 1)
    raw[align:align + len(b)] = b
    return raw, C.addressof(raw) + align


def mkrun(lib):
    def run(case):
        L = sim.load(lib)
        out = C.create_string_buffer(32)
        k = case["k"]
        if k == "pbkdf2":
            pw, salt = data(case["seed"], case["pn"], "rand"), data(case["seed"] + 1, case["sn"], "rand")
            r1, p1 = at(pw, case["align"])
            r2, p2 = at(salt, 3)
            dk = C.create_string_buffer(b"\xa5" * (case["dk"] + 8), case["dk"] + 8)
            L.g_pbkdf2(p1, len(pw), p2, len(salt), case["c"], dk, case["dk"])
            want = ref.pbkdf2(pw, salt, case["c"], case["dk"])
            check(dk.raw[:case["dk"]] == want, "PBKDF2-SHA256 is wrong (password %d, salt %d bytes, %d iterations, %d bytes of output)", len(pw), len(salt), case["c"], case["dk"])
            check(dk.raw[case["dk"]:] == b"\xa5" * 8, "PBKDF2-SHA256 writes past its output")
            return dict(nontrivial=case["dk"] > 32 or case["c"] > 1, classes=["pbkdf2"])
        d = data(case["seed"], case["n"], case["fill"])
        raw, p = at(d, case["align"])
        if k == "sha":
            want = ref.sha256(d)
            L.g_sha_buf(p, len(d), out)
            check(out.raw == want, "SHA256 of %d bytes is wrong", len(d))
            ctx, upd, fin, dup = L.g_sha_new(), L.g_sha_update, L.g_sha_final, L.g_sha_dup
        else:
            key = data(case["seed"] + 2, case["kn"], "rand")
            rk, pk = at(key, 5)
            want = ref.hmac256(key, d)
            L.g_hmac_buf(pk, len(key), p, len(d), out)
            check(out.raw == want, "HMAC-SHA256 of %d bytes with a key of %d bytes is wrong", len(d), len(key))
            ctx, upd, fin, dup = L.g_hmac_new(pk, len(key)), L.g_hmac_update, L.g_hmac_final, L.g_hmac_dup
        off, i = 0, 0
        cuts = [min(c, len(d)) for c in case["cuts"]]
        while off < len(d):
            c = cuts[i] if i < len(cuts) else len(d) - off
            c = min(c, len(d) - off)
            i += 1
            upd(ctx, p + off, c)
            off += c
            if case["dup"] and i == 2:
                # A saved context must not be affected by what happens to its copy.
                c2 = dup(ctx)
                upd(c2, p, min(70, len(d)))
                fin(c2, out)
                check(out.raw == (ref.sha256(d[:off] + d[:70]) if k == "sha" else ref.hmac256(key, d[:off] + d[:70])), "a copied context gives a wrong result")
        fin(ctx, out)
        check(out.raw == want, "%s of %d bytes fed in pieces %r differs from the whole", k, len(d), cuts[:i])
        return dict(nontrivial=len(d) >= 64 and i > 1, classes=[k, "chunked" if i > 1 else "whole"])
    return run


def long_enum(tier):
    yield {"mb": 520, "tail": 77}
    yield {"one": (513 << 20) + 77}
    if tier == "thorough":
        yield {"mb": 4100, "tail": 3}
        yield {"one": (4097 << 20) + 13}
    # Key derivation: block numbers and iteration counts beyond 8 and 16 bits.
    yield {"c": 1, "dk": 32 * 65537 + 1}
    yield {"c": 2, "dk": 32 * 257 + 31}
    yield {"c": 70000, "dk": 33}
    yield {"c": 300, "dk": 500}


def long_run(case):
    """More than 2^32 bits (and bytes): the length counter."""
    L = sim.load("sim")
    if "c" in case:
        pw, salt = data(3, 41, "rand"), data(4, 77, "rand")
        dk = C.create_string_buffer(case["dk"] + 1)
        L.g_pbkdf2(sim.buf(pw), len(pw), sim.buf(salt), len(salt), case["c"], dk, case["dk"])
        check(dk.raw[:case["dk"]] == ref.pbkdf2(pw, salt, case["c"], case["dk"]), "PBKDF2-SHA256 of %d bytes in %d iterations is wrong", case["dk"], case["c"])
        return dict(nontrivial=True, classes=["pbkdf2-long"])
    out = C.create_string_buffer(32)
    if "one" in case:
        # Pages which are only read cost no memory.
        m = mmap.mmap(-1, case["one"], flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS)
        m[5] = 1
        v = C.c_char.from_buffer(m)
        for f in (L.g_sha_buf,):
            f(C.addressof(v), case["one"], out)
        h = hashlib.sha256(m)
        check(out.raw == h.digest(), "SHA256 of %d bytes in one piece is wrong", case["one"])
        del v
        m.close()
        return dict(nontrivial=True, classes=["long-piece"])
    blk = data(9, 1 << 20, "rand")
    raw, p = at(blk, 0)
    h = hashlib.sha256()
    ctx = L.g_sha_new()
    for _ in range(case["mb"]):
        L.g_sha_update(ctx, p, 1 << 20)
        h.update(blk)
    L.g_sha_update(ctx, p, case["tail"])
    h.update(blk[:case["tail"]])
    L.g_sha_final(ctx, out)
    check(out.raw == h.digest(), "SHA256 of %d MB is wrong", case["mb"])
    return dict(nontrivial=True, classes=["long"])


RULE = "at least one whole block and more than one piece, or a multi-block/multi-iteration key derivation"
TARGETS = [
    Target("native", strat, mkrun("sim"), RULE, quick=(3, 2500, 9), thorough=(4, 100000, 120)),
    Target("sse2", strat, mkrun("sse"), RULE + " (SHA extensions hidden)", quick=(2, 2500, 9), thorough=(2, 100000, 120), lib="sse"),
    Target("portable", strat, mkrun("soft"), RULE + " (all CPU features hidden)", quick=(2, 2500, 9), thorough=(2, 100000, 120), lib="soft"),
    Target("long", None, long_run, "more than 2^32 bits were hashed, or more than 8 blocks derived", quick=(3, 0, 60), thorough=(3, 0, 200), enum=long_enum, case_timeout=200),
]
ASSUMPTIONS = ["only the code paths which this CPU can run are exercised (x86: SHA extensions, SSE2, portable); ARM code is not"]
