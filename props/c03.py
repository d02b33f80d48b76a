"""C03: altered, forged, reordered, repeated, dropped or spliced packets are never delivered."""
import ctypes as C
from hypothesis import strategies as st
from vf import gen, peer, ref, sim, world
from vf.core import Target, check
from props.c02 import mk


def strat(tier):
    idx = st.integers(0, 11)
    attack = st.one_of(
        st.tuples(st.just("flip"), idx, st.one_of(st.sampled_from([0, 1023, 1024, 1027, 1028, 1059]), st.integers(0, 1059)), st.integers(0, 7)),
        st.tuples(st.just("swap"), idx, idx), st.tuples(st.just("dup"), idx, idx), st.tuples(st.just("del"), idx),
        st.tuples(st.just("junk"), idx, st.integers(1, 2200)), st.tuples(st.just("reflect"), idx),
        st.tuples(st.just("other-session"), idx), st.tuples(st.just("other-dir"), idx), st.tuples(st.just("cut"), idx, st.integers(1, 1059)),
        st.tuples(st.just("badlen"), idx, st.sampled_from([0, 1025, 1028, 65536, 2**31, 2**32 - 1, 2**32 - 1024])),
        st.tuples(st.just("badmac"), idx, st.sampled_from(["zero", "nokey", "nopnum", "trunc"])))
    return st.fixed_dictionaries(dict(role=st.sampled_from(["client", "server"]), lens=st.lists(st.one_of(st.sampled_from([1, 1024]), st.integers(1, 1024)), min_size=1, max_size=12),
                                      attacks=st.lists(attack, min_size=0, max_size=3), frag=st.lists(gen.wiresize, max_size=6), io=gen.io_tape, misc=gen.misc_tape,
                                      seed=gen.seed, pfs=st.sampled_from([False, False, False, True]), back=st.integers(0, 2000)))


def run(case):
    L = sim.load()
    role = case["role"]
    key = b"c03-%d" % (case["seed"] % 64)
    o = peer.One(L, role, key, nopfs=0 if case["pfs"] else 1, io=case["io"], misc=case["misc"], seed=case["seed"])
    snd, rcv = o.handshake(ref.sha256(b"n%d" % case["seed"]), ref.sha256(b"p") if case["pfs"] else None)
    o.connect_plain()
    # What the other direction sends is available to the attacker for reflection.
    o.plain_send(world.pattern("back", 0, case["back"]))
    for _ in range(4):
        o.pull()
    mine = bytes(o.sent[320:])
    pkts, plain, pos = [], [], 0
    tmpl = ref.Keys(snd.E, snd.H)
    for n in case["lens"]:
        plain.append(world.pattern("p", pos, n))
        pos += n
        pkts.append(tmpl.seal(plain[-1]))
    auth = b"".join(plain)
    kinds = []
    for a in case["attacks"]:
        if not pkts:
            break
        i = a[1] % len(pkts)
        kinds.append(a[0])
        if a[0] == "flip":
            b = bytearray(pkts[i])
            b[a[2] % len(b)] ^= 1 << a[3]
            pkts[i] = bytes(b)
        elif a[0] == "swap":
            j = a[2] % len(pkts)
            pkts[i], pkts[j] = pkts[j], pkts[i]
        elif a[0] == "dup":
            pkts.insert(a[2] % (len(pkts) + 1), pkts[i])
        elif a[0] == "del":
            del pkts[i]
        elif a[0] == "junk":
            pkts.insert(i, world.pattern("junk", case["seed"] % 997, a[2]))
        elif a[0] == "reflect":
            pkts.insert(i, mine[:1060] if mine else ref.Keys(rcv.E, rcv.H, i).seal(b"reflected"))
        elif a[0] == "other-session":
            kc, ks = ref.session_keys(o.K, ref.sha256(b"other"), o.nS, 1)
            k = kc if role == "server" else ks
            k.pnum = i
            pkts[i] = k.seal(b"from another session")
        elif a[0] == "other-dir":
            pkts[i] = ref.Keys(rcv.E, rcv.H, i).seal(b"wrong direction")
        elif a[0] == "cut":
            pkts[i] = pkts[i][:-a[2]]
        elif a[0] == "badlen":
            pkts[i] = ref.Keys(snd.E, snd.H, i).seal(b"", pad=world.pattern("pad", 0, 1024), length=a[2])
        elif a[0] == "badmac":
            ct = pkts[i][:1028]
            if len(ct) < 1028:
                continue
            h = {"zero": b"\0" * 32, "nokey": ref.sha256(ct), "nopnum": ref.hmac256(snd.H, ct), "trunc": pkts[i][1028:1059] + b"\0"}[a[2]]
            pkts[i] = ct + h
    data = b"".join(pkts)
    # The reference receiver says what may be delivered.
    chk = ref.Keys(snd.E, snd.H)
    good, bad = b"", None
    for i in range(0, len(data) - 1059, 1060):
        p = chk.open(data[i:i + 1060])
        if p is None:
            bad = i // 1060
            break
        good += p[0]
    check(auth.startswith(good), "reference model error")
    cuts = case["frag"]
    off = 0
    while off < len(data):
        n = cuts[(off // 7) % len(cuts)] if cuts else len(data)
        o.push(data[off:off + n])
        off += n
        check(good.startswith(bytes(o.got)), "bytes were delivered (%d so far) which are not the authentic stream's first %d", len(o.got), len(good))
    for _ in range(6):
        o.pull()
        if o.plain is not None:
            o.got += L.take(o.plain)
    check(good.startswith(bytes(o.got)), "bytes were delivered (%d) which are not the authentic stream's first %d", len(o.got), len(good))
    if bad is None:
        check(bytes(o.got) == good, "%d of %d authentic bytes delivered", len(o.got), len(good))
        check(not o.conn.dead, "dropped (%s) although every complete packet was authentic", o.conn.dead)
    else:
        check(o.conn.dead == [world.ERROR], "packet %d is not authentic but the connection was not dropped as broken (reported: %s)", bad, o.conn.dead)
        check(L.sim_closed(o.wire) and L.sim_closed(o.plain), "a socket stays open after a packet which is not authentic")
        n = len(o.got)
        o.push(data)
        check(len(o.got) == n, "data is delivered after a packet which is not authentic")
    o.end()
    return dict(nontrivial=bad is not None, classes=["attack-" + k for k in set(kinds)] + ["rejected" if bad is not None else "all-authentic",
                                                                                       "some-delivered" if o.got else "none-delivered"])


# --- every single-bit change of a packet -----------------------------------------
def bits_enum(tier):
    for i in range(1060):
        yield {"byte": i, "len": [1, 1024, 500][i % 3], "pnum": i % 4}


def bits_run(case):
    L = sim.load()
    f, r, (kc, ks) = mk(L, 5, 1, 1)
    pt = C.create_string_buffer(1024)
    for _ in range(case["pnum"]):
        L.proto_crypt_dec(sim.buf(kc.seal(b"a")), pt, f)
    pkt = kc.seal(world.pattern("q", 0, case["len"]))
    for b in range(8):
        t = bytearray(pkt)
        t[case["byte"]] ^= 1 << b
        check(L.proto_crypt_dec(sim.buf(bytes(t)), pt, f) == -1, "a packet with bit %d of byte %d changed is accepted", b, case["byte"])
    check(L.proto_crypt_dec(sim.buf(pkt), pt, f) == case["len"], "the unmodified packet is not accepted after forgeries were rejected")
    check(L.proto_crypt_dec(sim.buf(pkt), pt, f) == -1, "a repeated packet is accepted")
    L.proto_crypt_free(f)
    L.proto_crypt_free(r)
    return dict(nontrivial=True, evals=10, classes=["single-bit"])


TARGETS = [
    Target("attack", strat, run, "at least one complete 1060-byte record was not authentic", quick=(6, 900, 14), thorough=(8, 40000, 300)),
    Target("bits", None, bits_run, "all eight single-bit changes of the chosen byte were tried", quick=(2, 0, 20), thorough=(2, 0, 60), enum=bits_enum),
]
ASSUMPTIONS = ["HMAC-SHA256 and AES-256 themselves are not attacked; forgeries are made without the session keys, or with them but malformed"]
