"""C05: without the shared key, or with any handshake byte altered, nothing gets through."""
from hypothesis import strategies as st
from vf import gen, peer, ref, sim, world
from vf.core import Target, check

P = ref.P14


def strat(tier):
    fault = st.one_of(
        st.tuples(st.just("wrongkey"), st.sampled_from(["prefix", "suffix", "bit", "empty", "other"])),
        st.tuples(st.just("flip"), st.integers(0, 287), st.integers(0, 7)),
        st.tuples(st.just("bigy"), st.sampled_from([0, 1, 2, 2**64, 2**2048 - 1 - P])),
        st.tuples(st.just("macrole"), st.sampled_from(["swap", "K", "nokey", "swapnonce"])),
        st.tuples(st.just("replay"), st.integers(0, 3)),
        st.tuples(st.just("reflect")),
        st.tuples(st.just("eof"), st.integers(0, 319)),
        st.tuples(st.just("junk"), st.integers(320, 4000)),
        st.tuples(st.just("err"), st.integers(0, 319), st.sampled_from([104, 110, 113])))
    return st.fixed_dictionaries(dict(role=st.sampled_from(["client", "server"]), fault=fault, peerpfs=st.sampled_from([False, False, True]),
                                      minepfs=st.sampled_from([False, False, True]), frag=st.lists(st.integers(1, 300), max_size=5), io=gen.io_tape, seed=gen.seed,
                                      keylen=st.integers(1, 60), misc=gen.misc_tape, conn_first=st.booleans()))


def run(case):
    from props.c04 import drain, push_frag
    L = sim.load()
    role, f, frag = case["role"], case["fault"], case["frag"]
    key = world.pattern("c05", 0, case["keylen"])
    o = peer.One(L, role, key, nopfs=0 if case["minepfs"] else 1, io=case["io"], misc=case["misc"], seed=case["seed"])
    if case["conn_first"]:
        o.connect_plain()
    if o.plain is not None:
        o.plain_send(world.pattern("secret", 0, 3000))
    drain(o)
    check(len(o.sent) == 32, "%d bytes sent before the peer said anything", len(o.sent))
    mine = bytes(o.sent)
    K = o.K
    if f[0] == "wrongkey":
        k2 = {"prefix": key[:-1], "suffix": key + b"\n", "bit": bytes([key[0] ^ 1]) + key[1:], "empty": b"", "other": b"other" + key}[f[1]]
        K = ref.sha256(k2)
    nonce = ref.sha256(b"n%d" % case["seed"])
    if f[0] == "reflect":
        nonce = mine
    nC, nS = (nonce, mine) if role == "server" else (mine, nonce)
    mC, mS = ref.dhmacs(K, nC, nS)
    mac, othermac = (mC, mS) if role == "server" else (mS, mC)
    priv = ref.sha256(b"pp%d" % (case["seed"] % 50)) if case["peerpfs"] else None
    y = 1 if priv is None else ref.y_of(priv)
    if f[0] == "bigy":
        y = P + f[1]
    if f[0] == "macrole":
        if f[1] == "swap":
            mac = othermac
        elif f[1] == "K":
            mac = K
        elif f[1] == "nokey":
            mac = b"\0" * 32
        else:
            a, b = ref.dhmacs(K, nS, nC)
            mac = a if role == "server" else b
    msg = ref.yh(y, mac)
    if f[0] == "flip":
        b = bytearray(msg)
        b[f[1]] ^= 1 << f[2]
        msg = bytes(b)
    if f[0] == "replay":
        # A complete valid message from an earlier session (other nonces).
        old = ref.sha256(b"old%d" % f[1])
        c, s = ref.dhmacs(o.K, nC if role == "client" else nonce, old) if role == "server" else ref.dhmacs(o.K, old, nS)
        msg = ref.yh(y, c if role == "server" else s)
    if f[0] == "junk":
        nonce, msg = world.pattern("junk", 0, 32), world.pattern("junk", 32, f[1] - 32)
    all_ = nonce + msg
    if f[0] in ("eof", "err"):
        push_frag(o, all_[:f[1]], frag)
        if f[0] == "eof":
            o.L.sim_feed_eof(o.wire)
        else:
            o.L.sim_feed_err(o.wire, f[2], 0)
    elif f[0] == "reflect":
        # Send back to the end whatever it says.
        push_frag(o, mine, frag)
        drain(o)
        push_frag(o, bytes(o.sent[32:]), frag)
    else:
        push_frag(o, all_, frag)
    drain(o)
    o.connect_plain()
    if f[0] == "reflect":
        if role == "server":
            # Nothing more to reflect: waits until the timeout.
            check(len(o.sent) == 32, "server: answered its own reflected message")
            o.run(3601 * sim.SEC)
            check(o.conn.dead == [world.ERROR], "no timeout of a handshake which makes no progress: %s", o.conn.dead)
        else:
            check(o.conn.dead == [world.HANDSHAKE_FAILED], "client: accepted its own reflected message: %s", o.conn.dead)
    else:
        check(o.conn.dead == [world.HANDSHAKE_FAILED], "%s: a handshake which must fail (%s) was not reported as failed: %s", role, f[0], o.conn.dead)
    check(L.sim_closed(o.wire), "the socket stays open after a failed handshake")
    check(role == "client" or L.sim_closed(o.conn.out_ep()), "the socket to the target stays open after a failed handshake")
    if role == "server":
        check(len(o.sent) == 32, "server: %d bytes were sent to a peer which is not authenticated", len(o.sent))
    else:
        check(len(o.sent) <= 320, "client: %d bytes were sent to a peer which is not authenticated", len(o.sent))
    check(len(o.got) == 0, "%d bytes were delivered from a peer which is not authenticated", len(o.got))
    o.end()
    return dict(nontrivial=True, classes=[f[0], role])


# --- every bit of the peer's public value / HMAC message ----------------------------
def bits_enum(tier):
    for role in ("client", "server"):
        for i in range(320):
            yield {"role": role, "byte": i}


def bits_run(case):
    L = sim.load()
    role = case["role"]
    for bit in range(8):
        o = peer.One(L, role, b"bits", nopfs=1, seed=case["byte"])
        o.pull()
        mine = bytes(o.sent)
        nonce = ref.sha256(b"x%d" % case["byte"])
        nC, nS = (nonce, mine) if role == "server" else (mine, nonce)
        mC, mS = ref.dhmacs(o.K, nC, nS)
        msg = bytearray(nonce + ref.yh(1, mC if role == "server" else mS))
        msg[case["byte"]] ^= 1 << bit
        o.push(bytes(msg))
        for _ in range(3):
            o.pull()
        check(o.conn.dead == [world.HANDSHAKE_FAILED], "%s: bit %d of byte %d of the peer's handshake was changed and the handshake did not fail: %s",
              role, bit, case["byte"], o.conn.dead)
        o.end()
    return dict(nontrivial=True, evals=8, classes=["bits-" + role])


# --- a man in the middle between two real ends -----------------------------------
def mstrat(tier):
    ed = st.tuples(st.sampled_from(["c2s", "s2c"]), st.integers(0, 319), st.integers(1, 255))
    return st.fixed_dictionaries(dict(edits=st.lists(ed, min_size=0, max_size=3), pfs=gen.pfs_pair, keys=st.sampled_from(["same", "same", "same", "diff"]), seed=gen.seed,
                                      frag=st.lists(st.integers(1, 400), max_size=4), io=gen.io_tape))


def mrun(case):
    L = sim.load()
    w = world.Pair(L, key_c=b"shared", key_s=b"shared" if case["keys"] == "same" else b"shared2", c=dict(nopfs=case["pfs"][0], timeo=5.0),
                   s=dict(nopfs=case["pfs"][1], timeo=5.0), io=case["io"], seed=case["seed"])
    w.user_send("u", 2000)
    ed = {}
    for d, i, x in case["edits"]:
        ed[(d, i)] = ed.get((d, i), 0) ^ x
    ed = {k: v for k, v in ed.items() if v}
    pos = {"c2s": 0, "s2c": 0}
    frag = case["frag"]
    k = 0
    changed = False
    for rnd in range(1500):
        w.run(0)
        w.connect_t()
        w.connect_x()
        if "x" in w.eps and w.sent["x"] == 0:
            w.user_send("x", 2000)
        w.run(0)
        moved = False
        for d, q in (("c2s", w.c2s), ("s2c", w.s2c)):
            n = len(q) if not frag else min(len(q), frag[k % len(frag)])
            k += 1
            for i in range(n):
                x = ed.get((d, pos[d] + i))
                if x:
                    q[i] ^= x
                    changed = True
            if n:
                moved = True
            pos[d] += n
            w.deliver(d, n)
        w.run(0)
        w.read_out("u")
        w.read_out("x")
        if not moved and not w.c2s and not w.s2c and rnd > 8:
            break
    w.check_prefix()
    fail = bool(ed) or case["keys"] != "same"
    if fail:
        check(not w.got["u"] and not w.got["x"], "data was delivered (%d to the user, %d to the backend) over a handshake which was interfered with",
              len(w.got["u"]), len(w.got["x"]))
        w.settle(ns=0)
        w.run(11 * sim.SEC)
        w.settle(ns=0)
        w.run(11 * sim.SEC)
        check(len(w.client.dead) == 1 and w.client.dead[0] != world.CLOSED, "client: handshake interfered with, but reported %s", w.client.dead)
        if any(d == "c2s" or i < 32 for d, i in ed) or case["keys"] != "same":
            check(len(w.server.dead) == 1 and w.server.dead[0] != world.CLOSED, "server: handshake interfered with, but reported %s", w.server.dead)
        else:
            # Only the client can tell; the server sees its peer leave, and ends with its backend.
            w.user_eof("x")
            w.settle(ns=0)
            check(len(w.server.dead) == 1, "server: not ended after both its peer and its backend have gone: %s", w.server.dead)
    else:
        w.settle()
        check(len(w.got["u"]) == w.sent["x"] and len(w.got["x"]) == w.sent["u"], "undisturbed handshake, but data did not get through")
    w.close()
    w.check_clean()
    return dict(nontrivial=fail, classes=["mitm" if ed else ("keys" if fail else "clean")])


TARGETS = [
    Target("reject", strat, run, "every case carries a fault which must be rejected", quick=(4, 600, 14), thorough=(8, 30000, 200)),
    Target("bits", None, bits_run, "all eight single-bit changes of the chosen handshake byte were tried", quick=(2, 0, 30), thorough=(2, 0, 100), enum=bits_enum),
    Target("mitm", mstrat, mrun, "handshake bytes were altered in flight, or the ends have different keys", quick=(2, 500, 14), thorough=(6, 20000, 200)),
]
