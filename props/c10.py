"""C10: Diffie-Hellman in group 14, and the constant-time comparison."""
import ctypes as C, hashlib
from hypothesis import strategies as st
from vf import gen, ref, sim
from vf.core import Target, check

P = ref.P14
special = st.sampled_from(["zero", "ones", "top", "one"])
privs = st.one_of(special, st.integers(0, 10**6))
pubs = st.one_of(st.sampled_from(["0", "1", "2", "p-1", "p-2", "lead", "p", "p+1", "max"]), st.integers(0, 10**6), st.integers(0, 2047).map(lambda b: "b%d" % b))


def priv(p):
    return {"zero": b"\0" * 32, "ones": b"\xff" * 32, "top": b"\x80" + b"\0" * 31, "one": b"\0" * 31 + b"\1"}[p] if isinstance(p, str) else ref.sha256(b"c10-%d" % p)


def pub(p):
    if isinstance(p, int):
        return int.from_bytes(hashlib.shake_128(b"pub%d" % p).digest(256), "big") % P
    if p[0] == "b":
        return 1 << int(p[1:])
    return {"0": 0, "1": 1, "2": 2, "p-1": P - 1, "p-2": P - 2, "lead": ref.y_of(ref.sha256(b"lead1001")), "p": P, "p+1": P + 1, "max": 2**2048 - 1}[p]


def strat(tier):
    return st.fixed_dictionaries(dict(a=privs, b=privs, y=pubs, seed=gen.seed, blind=st.sampled_from(["rand", "rand", "zero", "ones"])))


def run(case):
    L = sim.load()
    L.sim_ent_mode = 1
    L.sim_ent_seed(case["seed"])

    def blind():
        if case["blind"] != "rand":
            L.sim_ent_push((b"\0" if case["blind"] == "zero" else b"\xff") * 32, 32)
    a, b = priv(case["a"]), priv(case["b"])
    ya, yb, ka, kb = (C.create_string_buffer(256) for _ in range(4))
    for x, y in ((a, ya), (b, yb)):
        blind()
        check(L.crypto_dh_generate_pub(y, x) == 0, "computing a public value failed")
        check(int.from_bytes(y.raw, "big") == ref.y_of(x), "the public value is not 2^(2^258 + x) mod p")
    blind()
    check(L.crypto_dh_compute(yb.raw, a, ka) == 0, "computing a shared value failed")
    blind()
    check(L.crypto_dh_compute(ya.raw, b, kb) == 0, "computing a shared value failed")
    check(ka.raw == kb.raw, "the two sides compute different shared values")
    check(int.from_bytes(ka.raw, "big") == pow(ref.y_of(b), (1 << 258) + int.from_bytes(a, "big"), P), "the shared value is not y^(2^258 + x) mod p")
    y = pub(case["y"])
    ybytes = y.to_bytes(256, "big")
    check((L.crypto_dh_sanitycheck(ybytes) == 0) == (y < P), "the range check of a public value is wrong (value %s the modulus)", "below" if y < P else "at or above")
    if y < P:
        blind()
        check(L.crypto_dh_compute(ybytes, a, ka) == 0, "computing a shared value failed")
        check(int.from_bytes(ka.raw, "big") == pow(y, (1 << 258) + int.from_bytes(a, "big"), P), "shared value is wrong for public value %s", case["y"])
    return dict(nontrivial=True, classes=["y-" + (str(case["y"]) if isinstance(case["y"], str) and case["y"][0] != "b" else "other"), "blind-" + case["blind"]])


def gstrat(tier):
    return st.fixed_dictionaries(dict(x=privs, seed=gen.seed, fail=st.sampled_from([-1, -1, 0, 1])))


def grun(case):
    L = sim.load()
    L.sim_ent_mode = 1
    L.sim_ent_seed(case["seed"])
    x = priv(case["x"])
    L.sim_ent_push(x, 32)
    L.sim_ent_fail_at = case["fail"]
    p, y = C.create_string_buffer(32), C.create_string_buffer(256)
    rc = L.crypto_dh_generate(y, p)
    if case["fail"] >= 0:
        check(rc != 0, "key generation succeeded without random numbers")
    else:
        check(rc == 0, "key generation failed")
        check(p.raw == x, "the private value does not consist of the 256 random bits drawn")
        check(int.from_bytes(y.raw, "big") == ref.y_of(x), "the generated public value does not belong to the private value")
    return dict(nontrivial=True, classes=["fail" if case["fail"] >= 0 else "ok"])


# --- range check near the modulus ----------------------------------------------
def near_enum(tier):
    for i in range(256):
        yield {"byte": i}


def near_run(case):
    """Values which agree with p in all but one byte."""
    L = sim.load()
    pb = P.to_bytes(256, "big")
    i = case["byte"]
    vals = range(256)
    for v in vals:
        b = pb[:i] + bytes([v]) + pb[i + 1:]
        check((L.crypto_dh_sanitycheck(b) == 0) == (b < pb), "range check wrong for the modulus with byte %d set to %d", i, v)
        if v < 255:
            for tail in (b"\0", b"\xff"):
                b2 = pb[:i] + bytes([v]) + tail * (255 - i)
                check((L.crypto_dh_sanitycheck(b2) == 0) == (b2 < pb), "range check wrong at byte %d", i)
    return dict(nontrivial=True, evals=256 * 3, classes=["near-modulus"])


# --- constant-time comparison -----------------------------------------------------
def vstrat(tier):
    return st.fixed_dictionaries(dict(n=st.one_of(st.just(32), st.integers(0, 100)), seed=gen.seed, diffs=st.lists(st.tuples(st.integers(0, 99), st.integers(1, 255)), max_size=3)))


def venum(tier):
    for n in (1, 8, 31, 32, 33):
        for i in range(n):
            for x in range(1, 256, 1 if n == 32 else 37):
                yield {"n": n, "seed": i, "diffs": [[i, x]]}


def vrun(case):
    L = sim.load()
    a = hashlib.shake_128(b"v%d" % case["seed"]).digest(case["n"])
    b = bytearray(a)
    for i, x in case["diffs"]:
        if i < len(b):
            b[i] ^= x
    eq = bytes(b) == a
    check((L.crypto_verify_bytes(sim.buf(a), sim.buf(bytes(b)), len(a)) == 0) == eq, "comparison of %d bytes says %s", len(a), "different for equal inputs" if eq else "equal for different inputs")
    return dict(nontrivial=len(a) > 0, classes=["equal" if eq else "different"])


TARGETS = [
    Target("exchange", strat, run, "every case computes two public values and a shared value", quick=(4, 170, 12), thorough=(8, 8000, 200)),
    Target("generate", gstrat, grun, "every case generates a key pair or must fail", quick=(1, 350, 10), thorough=(2, 5000, 100)),
    Target("near", None, near_run, "values differing from the modulus in one byte", quick=(1, 0, 20), thorough=(1, 0, 30), enum=near_enum),
    Target("compare", vstrat, vrun, "at least one byte compared", quick=(2, 800, 10), thorough=(2, 20000, 60), enum=venum),
]
