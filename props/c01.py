"""C01: what goes in at one end comes out at the other, unchanged."""
from hypothesis import strategies as st
from vf import gen, sim, world, procs
from vf.core import Target, check

NAME = {"u": "user", "x": "backend"}
OTHER = {"u": "x", "x": "u"}


def ops(tier):
    who = st.sampled_from("ux")
    op = st.one_of(
        st.tuples(st.just("send"), who, gen.size),
        st.tuples(st.just("send"), who, gen.bigsize if tier == "thorough" else gen.size),
        st.tuples(st.just("wire"), st.sampled_from(["c2s", "s2c"]), gen.wiresize),
        st.tuples(st.just("read"), who, gen.size),
        st.tuples(st.just("run"), st.sampled_from([0, 0, 1, 1000])),
        st.tuples(st.just("conn"), st.sampled_from("tx")),
        st.tuples(st.just("eof"), who),
        st.tuples(st.just("cap"), st.sampled_from("utsx"), st.sampled_from([0, 1, 7, 100, 1059, 1061, 100000])),
        st.tuples(st.just("settle")),
    )
    return st.fixed_dictionaries(dict(pfs=gen.pfs_pair, ops=st.lists(op, max_size=60 if tier == "thorough" else 30),
                                      io=gen.io_tape, misc=gen.misc_tape, seed=gen.seed,
                                      fin=st.sampled_from(["both", "u", "x", "block_u", "block_x"])))


def check_eof(w):
    """End of stream is passed on only after all data, and only if it was seen."""
    L = w.L
    for who in "ux":
        if who in w.eps and (L.sim_shutwr(w.eps[who])):
            src = OTHER[who]
            check(w.eof[src], "the %s was sent end-of-stream although the %s has not ended its stream", NAME[who], NAME[src])
            check(L.sim_tx_len(w.eps[who]) == w.sent[src],
                  "the %s was sent end-of-stream after %d of %d bytes", NAME[who], L.sim_tx_len(w.eps[who]), w.sent[src])


def check_alive(w):
    """Nothing was done which would justify ending the connection."""
    if not (w.eof["u"] and w.eof["x"]):
        for c in (w.client, w.server):
            check(c is None or not c.dead, "%s ended (reason %s) although neither side did anything wrong",
                  c.name if c else "", c.dead if c else "")


def step(w, op):
    L = w.L
    if op[0] == "send":
        w.user_send(op[1], op[2])
    elif op[0] == "wire":
        w.deliver(op[1], op[2])
    elif op[0] == "read":
        w.read_out(op[1], op[2])
    elif op[0] == "run":
        w.run(op[1] * 1000000)
    elif op[0] == "conn":
        w.connect_t() if op[1] == "t" else w.connect_x()
    elif op[0] == "eof":
        w.user_eof(op[1])
    elif op[0] == "cap":
        if op[1] in w.eps:
            L.sim_set_txcap(w.eps[op[1]], op[2])
    elif op[0] == "settle":
        for e in w.eps.values():
            L.sim_set_txcap(e, 1 << 20)
        w.settle()
    w.run(0)
    w.check_prefix()
    check_eof(w)
    check_alive(w)


def run(case):
    L = sim.load()
    w = world.Pair(L, c=dict(nopfs=case["pfs"][0]), s=dict(nopfs=case["pfs"][1]), io=case["io"], misc=case["misc"], seed=case["seed"])
    w.run(0)
    for op in case["ops"]:
        step(w, op)
    for e in w.eps.values():
        L.sim_set_txcap(e, 1 << 20)
    fin = case["fin"]
    eof0 = dict(w.eof)
    if fin.startswith("block") and not (w.eof["u"] and w.eof["x"]):
        # A receiver which never reads must not hold up the other direction.
        blk = fin[-1]                     # this side does not read
        w.settle()
        L.sim_set_txcap(w.eps[blk], 0)
        n0 = len(w.got[OTHER[blk]])
        w.user_send(OTHER[blk], 30000)
        w.settle()
        k = w.user_send(blk, 7777)
        w.settle()
        check(len(w.got[OTHER[blk]]) - n0 == k, "%d of %d bytes from the %s arrived while it was not reading its own input",
              len(w.got[OTHER[blk]]) - n0, k, NAME[blk])
        L.sim_set_txcap(w.eps[blk], 1 << 20)
    w.settle()
    for who in "ux":
        check(len(w.got[who]) == w.sent[OTHER[who]], "only %d of %d bytes reached the %s", len(w.got[who]), w.sent[OTHER[who]], NAME[who])
    w.check_prefix()
    check_eof(w)
    check_alive(w)
    for who in "ux":
        if w.eof[OTHER[who]]:
            check(L.sim_shutwr(w.eps[who]), "the %s ended its stream but the %s was not told", NAME[OTHER[who]], NAME[who])
    # Half-closed: the other direction must still carry data.
    order = {"both": ["u", "x"], "u": ["u", "x"], "x": ["x", "u"]}.get(fin, ["x", "u"])
    for i, who in enumerate(order):
        w.user_eof(who)
        w.settle()
        check_eof(w)
        check(L.sim_shutwr(w.eps[OTHER[who]]), "the %s ended its stream but the %s was not told", NAME[who], NAME[OTHER[who]])
        o = OTHER[who]
        if not w.eof[o]:
            k = w.user_send(o, 1500)
            w.settle()
            check(len(w.got[who]) == w.sent[o], "after the %s ended its stream, only %d of %d bytes from the %s arrived",
                  NAME[who], len(w.got[who]), w.sent[o], NAME[o])
        check_alive(w)
    w.settle()
    w.check_prefix()
    check(w.client.dead == [world.CLOSED], "client: after both streams ended, reasons reported: %s", w.client.dead)
    check(w.server.dead == [world.CLOSED], "server: after both streams ended, reasons reported: %s", w.server.dead)
    w.close()
    w.check_clean()
    nt = min(len(w.got["u"]), len(w.got["x"])) > 0 and (len(case["ops"]) >= 2 or bool(case["io"]))
    cl = ["pfs" if case["pfs"] == [0, 0] else "nopfs"]
    if L.sim_n_partial:
        cl.append("partial-io")
    if L.sim_n_eintr:
        cl.append("eintr")
    if any(eof0.values()):
        cl.append("early-eof")
    if fin.startswith("block"):
        cl.append("blocked-receiver")
    if max(w.sent.values()) > 8 * 1024:
        cl.append("large")
    return dict(nontrivial=nt, classes=cl)


# --- the real programs over loopback sockets ---------------------------------
def real_strategy(tier):
    chunk = st.one_of(st.integers(1, 3000), st.sampled_from([1, 1024, 1025, 9000, 70000]))
    conn = st.fixed_dictionaries(dict(u=st.lists(chunk, max_size=5), x=st.lists(chunk, max_size=5), first=st.sampled_from("ux"),
                                      seed=gen.seed))
    return st.fixed_dictionaries(dict(cflags=st.sampled_from([[], [], ["-f"], ["-g"], ["-j"]]), sflags=st.sampled_from([[], [], ["-g"], ["-j"]]),
                                      unix=st.booleans(), keylen=st.sampled_from([1, 32, 64, 1000]),
                                      conns=st.lists(conn, min_size=1, max_size=4)))


def real_run(case):
    if "-f" in case["cflags"] and "-g" in case["sflags"]:
        case = dict(case, sflags=[])
    with procs.Chain(case["cflags"], case["sflags"], case["unix"], case["keylen"]) as ch:
        ch.exchange(case["conns"])
        check(ch.alive(), "a daemon exited by itself: %s", ch.status())
    tot = sum(sum(c["u"]) + sum(c["x"]) for c in case["conns"])
    return dict(nontrivial=tot > 0 and all(c["u"] or c["x"] for c in case["conns"]),
                classes=["conns%d" % len(case["conns"]), "unix" if case["unix"] else "tcp"])


BINS = ("plain",)
TARGETS = [
    Target("pair", ops, run, "both directions carried data, after at least two scheduled steps or with a partial-I/O tape",
           quick=(6, 1500, 16), thorough=(8, 20000, 300)),
    Target("real", real_strategy, real_run, "every connection of the case carried data through real spiped processes",
           quick=(2, 25, 16), thorough=(8, 1000, 240), lib=None, case_timeout=60),
]
ASSUMPTIONS = ["in the simulated target the wire delivers bytes in order and unchanged, as TCP does"]
