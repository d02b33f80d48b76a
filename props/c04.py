"""C04: the handshake conforms to the documented protocol for every conforming peer."""
import ctypes as C
from hypothesis import strategies as st
from vf import gen, peer, ref, sim, world
from vf.core import Target, check

# Private values whose public or shared values have leading zero bytes.
LEAD = [b"lead1001", b"lead1158"]
MINE = ref.sha256(b"mine")
SC = [b"sc60", b"sc478"]


def strat(tier):
    priv = st.one_of(st.just("off"), st.just("off"), st.integers(0, 400).map(lambda n: "s%d" % n), st.sampled_from(["zero", "ones", "lead0", "lead1", "sc0", "sc1"]),
                     st.sampled_from(["y0", "y1", "y2", "yp-1", "yp-2"]))
    return st.fixed_dictionaries(dict(
        role=st.sampled_from(["client", "server"]), keylen=st.integers(0, 80), keyseed=st.integers(0, 20), priv=priv,
        mine=st.sampled_from(["off", "off", "rand", "zero", "ones", "lead0", "MINE"]), nonce=st.sampled_from(["rand", "zero", "ones", "same"]),
        frag=st.lists(st.one_of(st.integers(1, 40), st.integers(1, 320)), max_size=8), early=st.booleans(), reqpfs=st.booleans(),
        payload=st.integers(1, 3000), io=gen.io_tape, misc=gen.misc_tape, seed=gen.seed, late=st.booleans()))


def privof(s, seed):
    if s == "off":
        return None
    if s == "zero":
        return b"\0" * 32
    if s == "ones":
        return b"\xff" * 32
    if s.startswith("lead"):
        return ref.sha256(LEAD[int(s[4:])])
    if s.startswith("sc"):
        return ref.sha256(SC[int(s[2:])])
    if s == "MINE":
        return MINE
    return ref.sha256(b"priv" + s.encode() + b"%d" % (seed % 17))


def push_frag(o, data, frag):
    off, i = 0, 0
    while off < len(data):
        n = frag[i % len(frag)] if frag else len(data)
        i += 1
        o.push(data[off:off + n])
        off += n


def run(case):
    L = sim.load()
    key = world.pattern("key%d" % case["keyseed"], 0, case["keylen"])
    role, frag = case["role"], case["frag"]
    mine_off = case["mine"] == "off"
    yname = case["priv"] if case["priv"][0] == "y" else None
    priv = None if yname else privof(case["priv"], case["seed"])
    peer_off = case["priv"] in ("off", "y1")
    reqpfs = case["reqpfs"] and not peer_off and not mine_off
    sim.fresh_sim(L, case["io"], case["misc"], case["seed"])
    # The end's own random values: nonce, then exponent.
    mynonce = ref.sha256(b"mynonce%d" % case["seed"])
    myx = None
    L.sim_ent_push(mynonce, 32)
    if not mine_off:
        myx = privof({"rand": "s%d" % (case["seed"] % 300)}.get(case["mine"], case["mine"]), case["seed"])
        if case["priv"].startswith("sc"):
            myx = MINE
        L.sim_ent_push(myx, 32)
    o = peer.One(L, role, key, nopfs=1 if mine_off else 0, reqpfs=int(reqpfs), fresh=False)
    if not case["late"]:
        o.connect_plain()
    o.pull()
    nonce = {"rand": ref.sha256(b"nn%d" % case["seed"]), "zero": b"\0" * 32, "ones": b"\xff" * 32, "same": mynonce}[case["nonce"]]
    drain(o)
    check(bytes(o.sent) == mynonce, "%s: first message is not its 32-byte random nonce (%d bytes sent)", role, len(o.sent))
    nC, nS = (nonce, mynonce) if role == "server" else (mynonce, nonce)
    mC, mS = ref.dhmacs(o.K, nC, nS)
    y = {"y0": 0, "y1": 1, "y2": 2, "yp-1": ref.P14 - 1, "yp-2": ref.P14 - 2}[yname] if yname else (1 if priv is None else ref.y_of(priv))
    myy = 1 if mine_off else ref.y_of(myx)
    want = mynonce + ref.yh(myy, mS if role == "server" else mC)
    peermsg = ref.yh(y, mC if role == "server" else mS)
    if case["early"]:
        # Everything the peer can say in one go (a server does not wait to be asked).
        push_frag(o, nonce + peermsg, frag)
        drain(o)
    else:
        push_frag(o, nonce, frag)
        drain(o)
        if role == "client":
            check(bytes(o.sent) == want, "client: after the nonces it must send its public value and HMAC; sent %d bytes, %s", len(o.sent),
                  "different content" if len(o.sent) == 320 else "expected 320")
        else:
            check(len(o.sent) == 32, "server: %d bytes sent before it received the client's public value", len(o.sent))
        push_frag(o, peermsg[:-1], frag)
        drain(o)
        check(role == "client" or len(o.sent) == 32, "server: answers before the client's whole message has arrived")
        push_frag(o, peermsg[-1:], frag)
        drain(o)
    check(not o.conn.dead, "%s: dropped (%s) a peer which follows the protocol", role, o.conn.dead)
    check(bytes(o.sent) == want, "%s: handshake bytes differ from the documented ones (%d sent)", role, len(o.sent))
    if mine_off:
        ysc = 1
    else:
        ysc = pow(y, (1 << 258) + int.from_bytes(myx, "big"), ref.P14)
        if priv is not None:
            check(ysc == pow(myy, (1 << 258) + int.from_bytes(priv, "big"), ref.P14), "reference model error")
    kc, ks = ref.session_keys(o.K, nC, nS, ysc)
    snd, rcv = (kc, ks) if role == "server" else (ks, kc)
    o.connect_plain()
    n = case["payload"]
    for i in range(0, n, 1024):
        o.push(snd.seal(world.pattern("a", i, min(1024, n - i))))
    o.plain_send(world.pattern("b", 0, n))
    drain(o)
    check(not o.conn.dead, "dropped (%s) traffic under the documented keys", o.conn.dead)
    check(bytes(o.got) == world.pattern("a", 0, n), "%d of %d bytes sent under the documented keys were delivered", len(o.got), n)
    b = b"".join(p for p, _ in peer.decode(rcv, o.sent[320:]))
    check(b == world.pattern("b", 0, n), "traffic sent is not decodable under the documented keys")
    o.end()
    return dict(nontrivial=bool(frag) or bool(case["io"]) or priv is not None or yname is not None,
                classes=[role, "mine-" + case["mine"], "peer-" + ("s" if case["priv"].startswith("s") and case["priv"][1:].isdigit() else case["priv"]), "nonce-" + case["nonce"]])


def drain(o):
    for _ in range(3):
        o.pull()
    while True:
        n = len(o.sent), len(o.got), o.L.sim_io_tape_used()
        o.pull()
        if n == (len(o.sent), len(o.got), o.L.sim_io_tape_used()):
            break


# --- nonces and exponents are fresh --------------------------------------------
def fstrat(tier):
    return st.fixed_dictionaries(dict(n=st.integers(2, 6), role=st.sampled_from(["client", "server"]), nopfs=st.booleans(), key=st.integers(0, 5)))


def frun(case):
    L = sim.load()
    sim.fresh_sim(L)
    L.sim_ent_mode = 0          # the real generator
    seen = set()
    for i in range(case["n"]):
        o = peer.One(L, case["role"], b"fresh%d" % case["key"], nopfs=int(case["nopfs"]), fresh=False)
        L.sim_ent_mode = 0
        o.handshake(ref.sha256(b"const"), None)
        nn = bytes(o.sent[:32])
        check(nn not in seen, "two connections used the same nonce")
        seen.add(nn)
        if not case["nopfs"]:
            check(o.y_theirs not in seen, "two connections used the same Diffie-Hellman value")
            check(o.y_theirs != 1, "a connection with perfect forward secrecy sent the public value 1")
            seen.add(o.y_theirs)
        o.end()
    return dict(nontrivial=True, classes=["fresh"])


TARGETS = [
    Target("conform", strat, run, "messages were fragmented, or the peer used a real or extreme public value", quick=(7, 420, 16), thorough=(8, 20000, 300)),
    Target("fresh", fstrat, frun, "at least two connections compared", quick=(1, 60, 10), thorough=(4, 2000, 120)),
]
