"""C11: random bytes: HMAC_DRBG seeded from the operating system, failing closed."""
import ctypes as C, json, os
from hypothesis import strategies as st
from vf import gen, ref, sim
from vf.core import Target, Violation, check

req = st.one_of(st.sampled_from([0, 1, 31, 32, 33, 64, 65535, 65536, 65537, 131072, 131073, 200000]), st.integers(0, 200))
many = st.tuples(st.just("many"), st.integers(240, 270), st.sampled_from([1, 32]))


def in_child(fn):
    """The generator's state is static: every case runs in a fresh child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = {"r": fn()}
        except Violation as e:
            out = {"v": str(e)}
        except BaseException as e:
            out = {"v": "unexpected %r" % (e,)}
        with os.fdopen(w, "w") as f:
            json.dump(out, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    if not s:
        raise Violation("the process died")
    o = json.loads(s)
    if "v" in o:
        raise Violation(o["v"])
    return o["r"]


def strat(tier):
    tape = st.lists(st.one_of(st.just(0), st.just(0), st.integers(1, 47), st.sampled_from([200, 201])), max_size=10)
    return st.fixed_dictionaries(dict(seed=gen.seed, reqs=st.lists(st.one_of(req.map(lambda n: ("one", n)), many), min_size=1, max_size=10), tape=tape,
                                      openfail=st.lists(st.integers(0, 3), max_size=1), retry=st.booleans()))


class Closed(Exception):
    pass


def run(case):
    def child():
        L = sim.load("soft")
        sim.fresh_sim(L)
        L.sim_ent_mode = 0
        L.sim_rng_on = 1
        L.sim_rng_seed(case["seed"])
        tape = bytes(case["tape"])
        L.sim_set_rng_tape(tape, len(tape))
        used = [0]          # bytes of OS randomness
        log = C.create_string_buffer(1 << 16)
        drbg = None
        fails = reseeds = 0
        seen = set()
        if case["openfail"]:
            L.sim_rng_openerr = 24
            b = C.create_string_buffer(40)
            check(L.crypto_entropy_read(b, 32) == -1, "random bytes were handed out although the operating system's source cannot be opened")
            fails += 1
            L.sim_rng_openerr = 0
        for r in case["reqs"]:
            reqs = [r[1]] if r[0] == "one" else [r[2]] * r[1]
            for n in reqs:
                b = C.create_string_buffer(b"\xee" * (n + 8), n + 8)
                before = L.sim_rng_bytes
                rc = L.crypto_entropy_read(b, n)
                check(b.raw[n:] == b"\xee" * 8, "more bytes than asked for were written")
                got = L.sim_rng_bytes - before
                L.sim_rng_log(log, 1 << 16)
                os_bytes = log.raw[before:before + got]
                # Model
                want, ok = b"", True
                left, k = n, 0
                if drbg is None:
                    if rc == 0:
                        check(got == 48 or got > 48, "the generator was not seeded with 48 bytes from the operating system (%d read)", got)
                        drbg = ref.HmacDrbg(os_bytes[:48])
                        k = 48
                    else:
                        ok = False
                if ok:
                    while left > 0:
                        if drbg.counter > 256:
                            if len(os_bytes) - k < 32:
                                ok = False
                                break
                            drbg.reseed(os_bytes[k:k + 32])
                            k += 32
                            reseeds += 1
                        m = min(left, 65536)
                        want += drbg.generate(m)
                        left -= m
                if rc == 0:
                    check(ok and b.raw[:n] == want, "the bytes handed out differ from HMAC_DRBG seeded from the operating system's bytes (request of %d)", n)
                    if n >= 16:
                        check(want[:16] not in seen, "the same bytes were handed out twice")
                        seen.add(want[:16])
                    check(k == len(os_bytes), "more bytes were read from the operating system than specified")
                else:
                    fails += 1
                    check(not ok or any(x in (200, 201) for x in tape), "a request for random bytes failed although the source works")
                    if fails > 20:
                        return dict(fails=fails, reseeds=reseeds)
                    # State after a failed reseed must not have been consumed; the model resumes there.
            check(L.sim_nopen() == 0, "descriptors of the random source are left open")
        return dict(fails=fails, reseeds=reseeds)
    # sim.load before forking, so children share it
    sim.load("soft")
    o = in_child(child)
    return dict(nontrivial=len(case["reqs"]) >= 2, classes=["reseed" if o["reseeds"] else "no-reseed", "source-failure" if o["fails"] else "source-ok"])


# --- the OS reader ---------------------------------------------------------------
def ostrat(tier):
    return st.fixed_dictionaries(dict(seed=gen.seed, n=st.one_of(st.integers(0, 300), st.sampled_from([32, 48])), tape=st.lists(st.one_of(st.just(0), st.integers(1, 199), st.sampled_from([200, 201])), max_size=8), openerr=st.sampled_from([0, 0, 0, 24, 2])))


def orun(case):
    L = sim.load("soft")
    sim.fresh_sim(L)
    L.sim_rng_on = 1
    L.sim_rng_seed(case["seed"])
    L.sim_rng_openerr = case["openerr"]
    tape = bytes(case["tape"])
    L.sim_set_rng_tape(tape, len(tape))
    n = case["n"]
    b = C.create_string_buffer(b"\xee" * (n + 8), n + 8)
    rc = L.entropy_read(b, n)
    L.sim_rng_openerr = 0
    log = C.create_string_buffer(1 << 12)
    k = L.sim_rng_log(log, 1 << 12)
    check(b.raw[n:] == b"\xee" * 8, "more bytes than asked for were written")
    need, bad = n, False
    for t in list(tape) + [0]:
        if need <= 0:
            break
        if t in (200, 201):
            bad = True
            break
        need -= min(need, t) if t else need
    if case["openerr"]:
        check(rc == -1, "reading random bytes succeeded although the source cannot be opened")
    elif bad:
        check(rc == -1, "reading random bytes succeeded although the source failed or ended early")
    else:
        check(rc == 0 and k == n and b.raw[:n] == log.raw[:n], "short reads of the random source were not assembled correctly (%d bytes wanted)", n)
    check(L.sim_nopen() == 0, "the random source is left open")
    return dict(nontrivial=len(tape) > 0, classes=["bad" if bad or case["openerr"] else "ok"])


# --- with everything enabled (RDRAND mixed in): only independence can be judged ----
def istrat(tier):
    return st.fixed_dictionaries(dict(n=st.integers(1, 600), size=st.sampled_from([16, 32, 64]), seed=gen.seed))


def irun(case):
    L = sim.load("sim")

    def child():
        sim.fresh_sim(L)
        L.sim_ent_mode = 0
        L.sim_rng_on = 1
        L.sim_rng_seed(case["seed"])
        seen = set()
        for _ in range(case["n"]):
            b = C.create_string_buffer(case["size"])
            check(L.crypto_entropy_read(b, case["size"]) == 0, "a request for random bytes failed")
            check(b.raw not in seen and any(b.raw), "the same bytes were handed out twice")
            seen.add(b.raw)
        k = L.sim_rng_bytes
        check(k >= 48, "the generator was not seeded with 48 bytes from the operating system")
        check(case["n"] <= 256 or k >= 80, "no reseeding from the operating system after 256 requests")
        return {}
    in_child(child)
    return dict(nontrivial=case["n"] > 1, classes=["reseeded" if case["n"] > 256 else "short"])


TARGETS = [
    Target("drbg", strat, run, "at least two requests", quick=(4, 250, 14), thorough=(6, 5000, 240), lib="soft", case_timeout=60),
    Target("osread", ostrat, orun, "the source delivers in pieces or fails", quick=(2, 700, 10), thorough=(2, 20000, 60), lib="soft"),
    Target("native", istrat, irun, "at least two requests", quick=(2, 120, 10), thorough=(2, 2000, 60)),
]
ASSUMPTIONS = ["the exact comparison is made with CPU features hidden, since RDRAND output mixed in cannot be predicted; with RDRAND only non-repetition and the amount of seeding are checked"]
