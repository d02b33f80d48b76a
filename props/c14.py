"""C14: timers: never early, exactly once, in order, not late when idle; reset restarts them."""
from hypothesis import strategies as st
from vf import evloop, sim
from vf.core import Target, check

KINDS = ('tim', 'imm', 'net')
TARGETS = [
    Target("history", lambda t: evloop.strategy(KINDS, t)(t), lambda c: evloop.run(c, KINDS[0]),
           "at least one timer ran among two or more callbacks", quick=(6, 1500, 14), thorough=(8, 60000, 300)),
    Target("only", lambda t: evloop.strategy(KINDS[:1], t)(t), lambda c: evloop.run(c, KINDS[0]),
           "at least one timer ran among two or more callbacks", quick=(2, 1500, 14), thorough=(4, 60000, 300)),
]


# --- from nanoseconds to forever -----------------------------------------------
def lstrat(tier):
    d = st.one_of(st.floats(0, 10), st.floats(1e3, 1e6), st.floats(1e6, 4e8), st.sampled_from([2147483.647, 2147483.648, 2147484.0, 4294967.3, 1e-9, 0.0]),
                  st.floats(1e9, 1e308), st.sampled_from(["inf", 1e10, 9.3e18, 1.9e19, 1e300, 1.7976931348623157e308]))
    return st.fixed_dictionaries(dict(d=st.lists(d, min_size=1, max_size=6)))


def lrun(case):
    L = sim.load()
    sim.fresh_sim(L)
    L.sim_poll_limit = 10**9
    keep = sim.Keep()
    fired = []
    t0 = L.sim_now
    hs = []
    try:
        for i, d in enumerate(case["d"]):
            def f(c, i=i):
                hs[i] = None
                fired.append((i, L.sim_now - t0))
                return 0
            h = L.events_timer_register_double(keep.cb(sim.CB_V, f), None, float(d))
            check(h, "a timer of %s seconds could not be registered", d)
            hs.append(h)
        finite = sorted((float(d), i) for i, d in enumerate(case["d"]) if float(d) <= 5e8)
        for d, i in finite:
            ns = int(d * 1e9)
            L.sim_run(max(t0, t0 + ns - 2000))
            keep.reraise()
            L.sim_run(t0 + ns + 1002000)
            keep.reraise()
            check(i in [x for x, _ in fired], "a timer of %r seconds has not run", d)
        L.sim_run(t0 + 5 * 10**17)
        keep.reraise()
        for i, t in fired:
            d = float(case["d"][i])
            check(t >= d * 1e9 - 1001, "a timer of %r seconds ran after %d ns", d, t)
        check(sorted(x for x, _ in fired) == sorted(i for _, i in finite), "timers %s ran, of %s", [x for x, _ in fired], case["d"])
    finally:
        for h in hs:
            if h:
                L.events_timer_cancel(h)
    return dict(nontrivial=max(map(float, case["d"])) > 1e5, classes=["huge" if any(float(d) > 1e9 for d in case["d"]) else "moderate"])


TARGETS.append(Target("long", lstrat, lrun, "a timer of more than a day", quick=(1, 800, 10), thorough=(2, 30000, 60)))
