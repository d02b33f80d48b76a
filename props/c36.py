"""C36: special CPU instructions are used only where they exist and work, and change no result."""
import ctypes as C, os, struct, tempfile
from hypothesis import strategies as st
from vf import build, core, gen, ref, world
from vf.core import Target, check

SHANI, SSE2, EXPAND, BLOCK, BLOCKM, RDRAND, OPENSSL = range(7)
AESNI_C, RDRAND_C, SSSE3_C, SSE2_D, SHANI_B = 25, 30, 9, 26, 29
_l = []


def lib():
    if not _l:
        l = C.CDLL(build.hwlib())
        P, S, Z, I = C.c_void_p, C.c_char_p, C.c_size_t, C.c_int
        for n, r, a in (("hw_cpu", None, [C.c_uint, P, P, C.c_uint, I]), ("hw_wrong", None, [I, I, I]), ("hw_calls", C.c_long, [I]), ("hw_rdrand", None, [P, Z, S, Z]), ("hw_entropy", None, [S, Z]),
                        ("hw_sha", None, [S, Z, P]), ("hw_hmac", None, [S, Z, S, Z, P]), ("hw_aes", I, [S, Z, S, P]), ("hw_ctr", I, [S, Z, C.c_uint64, S, P, Z, Z]), ("hw_random", I, [P, Z])):
            f = getattr(l, n)
            f.restype, f.argtypes = r, a
        _l.append(l)
    return _l[0]


def strat(tier):
    junk = st.one_of(st.just(0), st.just(0xffffffff), st.integers(0, 2**32 - 1))
    # Registers: the named bits, over a background.
    feats = st.sets(st.sampled_from(["aesni", "rdrand", "ssse3", "sse2", "shani"]))
    full = st.just({"aesni", "rdrand", "ssse3", "sse2", "shani"})
    op = st.one_of(
        st.tuples(st.just("sha"), st.integers(0, 300)), st.tuples(st.just("hmac"), st.integers(0, 100), st.integers(0, 200)),
        st.tuples(st.just("aes"), st.sampled_from([16, 32])), st.tuples(st.just("ctr"), st.sampled_from([16, 32]), st.integers(0, 400), st.sampled_from([1, 7, 16, 17, 64, 400])),
        st.tuples(st.just("random"), st.one_of(st.integers(0, 100), st.sampled_from([65536, 65537]))), st.tuples(st.just("randoms"), st.sampled_from([1, 100, 255, 256, 257, 300, 520])))
    w = st.sampled_from([0, 0, 0, 0, 1])
    return st.fixed_dictionaries(dict(
        feats=st.one_of(feats, full, full).map(sorted), max=st.sampled_from([0, 1, 2, 6, 7, 7, 7, 7, 13, 32]), bg=junk, junk=junk, fail=st.sampled_from([0] * 8 + [1, 2, 128]),
        wrong=st.tuples(w, w, w, st.sampled_from([0, 0, 0, 0, 1, 2, 3]), st.sampled_from([0] * 9 + [1])), bits=st.tuples(*[st.integers(0, 255)] * 5),
        rfail=st.lists(st.sampled_from([0, 0, 0, 1, 2, 5, 8]), max_size=5), ops=st.lists(op, min_size=1, max_size=8), seed=gen.seed))


def enum(tier):
    """Every set of features, every single fault, one of every use."""
    names = ["aesni", "rdrand", "shani", "sse2", "ssse3"]
    ops = [["sha", 100], ["hmac", 70, 90], ["aes", 16], ["aes", 32], ["ctr", 32, 100, 17], ["random", 40], ["randoms", 300]]
    base = dict(max=7, bg=0, junk=0, fail=0, wrong=[0, 0, 0, 0, 0], bits=[0, 9, 0, 77, 3], rfail=[], ops=ops, seed=1)
    for m in range(32):
        f = [n for i, n in enumerate(names) if m >> i & 1]
        yield dict(base, feats=f)
        # All other bits set.
        yield dict(base, feats=f, bg=0xffffffff, junk=0xffffffff)
    for i in range(4):
        for v in (1, 2, 3)[:3 if i == 3 else 1]:
            yield dict(base, feats=names, wrong=[v if j == i else 0 for j in range(5)])
    yield dict(base, feats=names, wrong=[1, 1, 0, 1, 0])
    yield dict(base, feats=["sse2"], wrong=[0, 0, 0, 0, 1])
    for m in (0, 1, 6):
        yield dict(base, feats=names, max=m, junk=0xffffffff)
    for i in range(1, 9):
        yield dict(base, feats=names, rfail=[0, i])


def host():
    """What this machine has: nothing else can be run here (RDRAND is a stand-in)."""
    f = set()
    with open("/proc/cpuinfo") as fh:
        for x in fh:
            if x.startswith("flags"):
                f = set(x.split())
                break
    return {"rdrand"} | {n for n, k in (("aesni", "aes"), ("shani", "sha_ni"), ("sse2", "sse2"), ("ssse3", "ssse3")) if k in f}


def regs(case):
    bg = case["bg"]
    m1 = {2: 1 << AESNI_C | 1 << RDRAND_C | 1 << SSSE3_C, 3: 1 << SSE2_D}
    l1, l7 = [bg] * 4, [bg] * 4
    for r, m in m1.items():
        l1[r] &= ~m
    l7[1] &= ~(1 << SHANI_B)
    for f in set(case["feats"]) & host():
        if f == "shani":
            l7[1] |= 1 << SHANI_B
        else:
            r, b = {"aesni": (2, AESNI_C), "rdrand": (2, RDRAND_C), "ssse3": (2, SSSE3_C), "sse2": (3, SSE2_D)}[f]
            l1[r] |= 1 << b
    return l1, l7


def run(case):
    return core.forked(lambda: scenario(case), 30)


def scenario(case):
    l = lib()
    l1, l7 = regs(case)
    l.hw_cpu(case["max"], (C.c_uint * 4)(*l1), (C.c_uint * 4)(*l7), case["junk"], case["fail"])
    has = set(case["feats"]) & host()
    if case["max"] < 1 or case["fail"] & 1:
        has = set()
    if case["fail"] & 2:
        has &= {"shani"}
    if case["max"] < 7:
        has -= {"shani"}
    may7 = case["fail"] & 128       # leaf 7 does not answer: either way of asking is fine
    for i, r in enumerate((SHANI, SSE2, EXPAND, BLOCK, OPENSSL)):
        l.hw_wrong(r, case["wrong"][i], case["bits"][i])
    rnd = lambda tag, n: world.pattern("hw%d%s" % (case["seed"], tag), 0, n)
    words = rnd("w", 16384)
    l.hw_rdrand((C.c_uint32 * 4096)(*struct.unpack("<4096I", words)), 4096, bytes(case["rfail"]), len(case["rfail"]))
    osb = rnd("e", 4096)
    l.hw_entropy(osb, len(osb))
    opos, rpos, rcall = 0, 0, 0
    drbg = None
    used = set()
    aes_hw_ok = "aesni" in has and case["wrong"][2] != 1 and case["wrong"][3] == 0
    uses_aes = any(o[0] in ("aes", "ctr") for o in case["ops"])
    if case["wrong"][4] and uses_aes and not aes_hw_ok:
        # Neither works: it must stop, not go on with wrong results.
        pid = os.fork()
        if pid == 0:
            os.dup2(os.open("/dev/null", os.O_WRONLY), 2)
            out = C.create_string_buffer(16)
            k = next(o[1] for o in case["ops"] if o[0] in ("aes", "ctr"))
            l.hw_aes(rnd("k", k), k, rnd("p", 16), out)
            os._exit(0)
        s = os.waitpid(pid, 0)[1]
        check(os.WIFSIGNALED(s) and os.WTERMSIG(s) == 6, "neither AES implementation computes the right values and the program goes on (status %#x)", s)
        return dict(nontrivial=True, classes=["no AES works"])

    def extra():
        """RDRAND's part, when there is such a thing."""
        nonlocal rpos, rcall
        if "rdrand" not in has:
            return
        f = case["rfail"][rcall] if rcall < len(case["rfail"]) else 0
        rcall += 1
        n = f - 1 if f else 8
        w = (words + words)[rpos * 4 % 16384:][:n * 4]
        rpos += n
        if not f:
            drbg.update(w)

    err = tempfile.TemporaryFile()
    os.dup2(err.fileno(), 2)
    for i, op in enumerate(case["ops"]):
        o, t = op[0], str(i)
        out = C.create_string_buffer(70000)
        if o == "sha":
            m = rnd(t, op[1])
            l.hw_sha(m, len(m), out)
            check(out.raw[:32] == ref.sha256(m), "SHA256 of %d bytes is wrong", op[1])
        elif o == "hmac":
            k, m = rnd(t + "k", op[1]), rnd(t, op[2])
            l.hw_hmac(k, len(k), m, len(m), out)
            check(out.raw[:32] == ref.hmac256(k, m), "HMAC-SHA256 of %d bytes is wrong", op[2])
        elif o == "aes":
            k, m = rnd(t + "k", op[1]), rnd(t, 16)
            check(l.hw_aes(k, len(k), m, out) == 0 or case["wrong"][2] == 1, "no AES key")
            check(out.raw[:16] == ref.aes_block(k, m), "AES-%d is wrong", 8 * op[1])
        elif o == "ctr":
            k, m = rnd(t + "k", op[1]), rnd(t, op[2])
            l.hw_ctr(k, len(k), 1000 + i, m, out, len(m), op[3])
            check(out.raw[:len(m)] == ref.aes_ctr(k, 1000 + i, m), "AES-CTR with a %d-bit key is wrong", 8 * op[1])
        else:
            reqs = [op[1]] if o == "random" else [1] * op[1]
            for n in reqs:
                want = b""
                if drbg is None:
                    drbg = ref.HmacDrbg(osb[:48])
                    opos = 48
                    extra()
                left = n
                while left:
                    if drbg.counter > 256:
                        drbg.update(osb[opos:opos + 32])
                        opos += 32
                        extra()
                        drbg.counter = 1
                        used.add("RDRAND again")
                    m = min(left, 65536)
                    want += drbg.generate(m)
                    left -= m
                check(l.hw_random(out, n) == 0, "no random bytes")
                check(out.raw[:n] == want, "random bytes are not those of HMAC_DRBG %s", "with RDRAND's added" if "rdrand" in has else "")
    c = {n: l.hw_calls(r) for n, r in (("SHA-NI", SHANI), ("SSE2", SSE2), ("AES-NI keys", EXPAND), ("AES-NI", BLOCK), ("AES-NI stream", BLOCKM), ("RDRAND", RDRAND))}
    if not may7:
        check(not c["SHA-NI"] or {"shani", "ssse3"} <= has, "SHA-NI instructions were used and the CPU does not have them")
    check(not c["SSE2"] or "sse2" in has, "SSE2 instructions were used and the CPU does not have them")
    check(not (c["AES-NI keys"] or c["AES-NI"] or c["AES-NI stream"]) or "aesni" in has, "AES-NI instructions were used and the CPU does not have them")
    check(not c["RDRAND"] or "rdrand" in has, "RDRAND was used and the CPU does not have it")
    # What works is used, and without complaint.
    err.seek(0)
    said = err.read()
    check(any(case["wrong"][:4]) or not said, "a message although everything works: %r", said[:200])
    kinds = {o[0] for o in case["ops"]}
    if kinds & {"sha", "hmac"}:
        if {"shani", "ssse3"} <= has and not case["wrong"][0] and not case["fail"]:
            check(c["SHA-NI"] > 1, "the CPU's SHA-NI instructions work and are not used (after %d calls)", c["SHA-NI"])
        elif "sse2" in has and not case["wrong"][1] and not may7:
            check(c["SSE2"] > 1, "the CPU's SSE2 instructions work and are not used for SHA256 (after %d calls)", c["SSE2"])
    if aes_hw_ok and "aes" in kinds:
        check(c["AES-NI keys"] > 2 and c["AES-NI"] > 2, "the CPU's AES instructions work and are not used (after %d and %d calls)", c["AES-NI keys"], c["AES-NI"])
    if aes_hw_ok and any(o[0] == "ctr" and o[2] >= 16 and o[3] >= 16 for o in case["ops"]):
        check(c["AES-NI stream"] > 0, "the CPU's AES instructions work and are not used for AES-CTR")
    if "rdrand" in has and kinds & {"random", "randoms"}:
        check(c["RDRAND"] > 0, "the CPU's random numbers are not used")
    used |= {n for n in c if c[n]}
    for i, n in enumerate(("SHA-NI", "SSE2", "AES-NI keys", "AES-NI")):
        if case["wrong"][i] and c[n]:
            used.add(n + " is wrong")
    return dict(nontrivial=bool(used), classes=sorted(used) or ["nothing special"])


BINS = ("hw",)
TARGETS = [Target("hw", strat, run, "a special instruction was used, or found not to work", (3, 500, 12), (8, 20000, 200), lib=None, enum=enum)]
