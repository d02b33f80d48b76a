"""C06: perfect forward secrecy: negotiated as documented, never silently lost."""
from hypothesis import strategies as st
from vf import gen, peer, ref, sim, world
from vf.core import Target, check

OPTS = ["", "f", "g"]


def strat(tier):
    return st.fixed_dictionaries(dict(c=st.sampled_from(OPTS), s=st.sampled_from(OPTS), seed=gen.seed, n=st.integers(1, 2000), io=gen.io_tape, misc=gen.misc_tape))


def opts(o):
    return dict(nopfs=int(o == "f"), reqpfs=int(o == "g"))


def run(case):
    L = sim.load()
    c, s = case["c"], case["s"]
    w = world.Pair(L, key_c=b"pfs", key_s=b"pfs", c=dict(opts(c), timeo=5.0), s=dict(opts(s), timeo=5.0), io=case["io"], misc=case["misc"], seed=case["seed"])
    xC = ref.sha256(b"xc%d" % (case["seed"] % 300))
    xS = ref.sha256(b"xs%d" % (case["seed"] % 300))
    # Exponents are drawn after both nonces: the queue is consumed in order.
    w.user_send("u", case["n"])
    w.settle()
    w.user_send("x", case["n"])
    w.settle()
    refuse = (c == "f" and s == "g") or (c == "g" and s == "f")
    if refuse:
        check(not w.got["u"] and not w.got["x"], "data flows although one end requires perfect forward secrecy and the other refuses it")
        who = w.server if s == "g" else w.client
        check(who.dead == [world.HANDSHAKE_FAILED], "%s requires perfect forward secrecy, the other end refuses it; it reported %s", who.name, who.dead)
    else:
        check(len(w.got["x"]) == case["n"] and len(w.got["u"]) == case["n"], "options client '%s' server '%s' are compatible but no data flows", c, s)
        yC = int.from_bytes(w.c2s_log[32:288], "big")
        yS = int.from_bytes(w.s2c_log[32:288], "big")
        check((yC == 1) == (c == "f"), "client with option '%s' sends a public value which is%s 1", c, "" if yC == 1 else " not")
        check((yS == 1) == (s == "f"), "server with option '%s' sends a public value which is%s 1", s, "" if yS == 1 else " not")
        K = ref.sha256(b"pfs")
        nC, nS = bytes(w.c2s_log[:32]), bytes(w.s2c_log[:32])
        # Someone with the key file and a recording, but no exponents:
        guess = [1, yC, yS, yC * yS % ref.P14, 0, 2]
        pkt_c, pkt_s = bytes(w.c2s_log[320:1380]), bytes(w.s2c_log[320:1380])
        can = [g for g in guess if ref.session_keys(K, nC, nS, g)[0].open(pkt_c) is not None or ref.session_keys(K, nC, nS, g)[1].open(pkt_s) is not None]
        if "f" in (c, s):
            check(1 in can, "perfect forward secrecy is off at one end, but the session keys are not those of y_SC = 1")
        else:
            check(not can, "the recorded session can be decrypted with the key file alone")
            # And each end's exponent is what the keys depend on.
            ent = sim.buf(b"\0" * 4096)
            k = L.sim_ent_log(ent, 4096)
            log = bytes(ent)[:k]
            xs = [log[i:i + 32] for i in range(0, k, 32)]
            cand = [x for x in xs if ref.y_of(x) == yC]
            check(len(cand) >= 1, "the client's public value is not 2^(2^258 + x) for 256 bits x drawn from the random generator")
            candS = [x for x in xs if ref.y_of(x) == yS]
            check(len(candS) >= 1, "the server's public value is not 2^(2^258 + x) for 256 bits x drawn from the random generator")
            check(cand[0] != candS[0] and yC != yS, "both ends use the same exponent")
            ysc = pow(yS, (1 << 258) + int.from_bytes(cand[0], "big"), ref.P14)
            check(ref.session_keys(K, nC, nS, ysc)[0].open(pkt_c) is not None, "the session keys do not come from the Diffie-Hellman exchange")
    w.run(11 * sim.SEC)
    w.close()
    w.check_clean()
    return dict(nontrivial=True, classes=["c%s-s%s" % (c or "0", s or "0")])


# --- -g against an arbitrary peer -----------------------------------------------
def gstrat(tier):
    return st.fixed_dictionaries(dict(role=st.sampled_from(["client", "server"]), req=st.booleans(), nopfs=st.booleans(), seed=gen.seed,
                                      y=st.one_of(st.sampled_from(["1", "0", "2", "p-1", "257", "2^8", "2^2040", "rand"]), st.integers(0, 2047).map(lambda b: "bit%d" % b),
                                                  st.integers(2, 255).map(lambda v: "low%d" % v),
                                                  st.tuples(st.integers(0, 254), st.integers(0, 254), st.integers(1, 255), st.integers(0, 1)).map(lambda t: "two%d.%d.%d.%d" % t))))


def grun(case):
    L = sim.load()
    y = case["y"]
    if y.startswith("bit"):
        yv = (1 << int(y[3:])) | 1 if int(y[3:]) else 1
    elif y.startswith("low"):           # one byte
        yv = int(y[3:])
    elif y.startswith("two"):           # 1 but for two bytes, which cancel in a sum or difference
        i, j, v, neg = [int(x) for x in y[3:].split(".")]
        b = bytearray(256)
        b[255], b[i] = 1, v
        if i != j:
            b[j] = (256 - v) & 255 if neg else v
        yv = int.from_bytes(b, "big")
    else:
        yv = {"1": 1, "0": 0, "2": 2, "p-1": ref.P14 - 1, "257": 257, "2^8": 256, "2^2040": 1 << 2040, "rand": ref.y_of(ref.sha256(b"%d" % (case["seed"] % 50)))}[y]
    if yv >= ref.P14:
        yv = 3
    role = case["role"]
    o = peer.One(L, role, b"g", nopfs=int(case["nopfs"] and not case["req"]), reqpfs=int(case["req"]), seed=case["seed"])
    o.pull()
    mine, nonce = bytes(o.sent), ref.sha256(b"%d" % case["seed"])
    nC, nS = (nonce, mine) if role == "server" else (mine, nonce)
    mC, mS = ref.dhmacs(o.K, nC, nS)
    o.push(nonce + ref.yh(yv, mC if role == "server" else mS))
    for _ in range(3):
        o.pull()
    if case["req"] and yv == 1:
        check(o.conn.dead == [world.HANDSHAKE_FAILED], "perfect forward secrecy is required but a peer sending the public value 1 was accepted")
    else:
        check(not o.conn.dead, "an authentic public value (%s) other than 1 was refused%s", y, " with -g" if case["req"] else "")
    o.end()
    return dict(nontrivial=case["req"], classes=["req" if case["req"] else "noreq", "y1" if yv == 1 else "y-other"])


def genum(tier):
    for v in range(2, 256):
        yield dict(role="client", req=True, nopfs=False, seed=v, y="low%d" % v)


def enum(tier):
    for c in OPTS:
        for s in OPTS:
            yield dict(c=c, s=s, seed=1, n=100, io=[], misc=[])


TARGETS = [
    Target("matrix", strat, run, "every case is a complete exchange between two ends with chosen options", quick=(5, 130, 14), thorough=(8, 6000, 200), enum=enum),
    Target("require", gstrat, grun, "perfect forward secrecy was required", quick=(3, 400, 12), thorough=(4, 6000, 120), enum=genum),
]
