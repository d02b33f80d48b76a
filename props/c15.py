"""C15: priority queues: the minimum is always right, and records can be moved or removed by handle."""
import ctypes as C
from hypothesis import strategies as st
from vf import gen, sim
from vf.core import Target, Violation, check

key = st.one_of(st.integers(0, 6), st.integers(0, 1000))
idx = st.integers(0, 200)


def strat(tier):
    op = st.one_of(st.tuples(st.just("add"), key), st.tuples(st.just("add"), key), st.tuples(st.just("del"), idx), st.tuples(st.just("del"), idx), st.tuples(st.just("delmin")),
                   st.tuples(st.just("inc"), idx, key), st.tuples(st.just("dec"), idx, key), st.tuples(st.just("incmin"), key),
                   st.tuples(st.just("addfail"), key), st.tuples(st.just("drain"), idx))
    return st.fixed_dictionaries(dict(init=st.lists(key, max_size=60), ops=st.lists(op, max_size=150 if tier == "thorough" else 70),
                                      cookies=st.sampled_from([1, 1, 1, 0])))


def run(case):
    L = sim.load()
    sim.fresh_sim(L)
    keep = sim.Keep()
    keys, pos = {}, {}          # handle -> key; handle -> record cookie last announced
    nxt = [1]
    moved = [0]

    def cmp(_c, x, y):
        a, b = keys[x], keys[y]
        return (a > b) - (a < b)

    def setrc(_c, p, rc):
        pos[p] = rc or 0
        moved[0] += 1

    ccmp = keep.cb(sim.CB_CMP, cmp)
    cset = keep.cb(sim.CB_SETNUM, setrc) if case["cookies"] else C.cast(None, sim.CB_SETNUM)
    for kk in case["init"]:
        keys[nxt[0]] = kk
        nxt[0] += 1
    if case["init"]:
        arr = (sim.VP * len(case["init"]))(*range(1, nxt[0]))
        H = L.ptrheap_create(ccmp, cset, None, len(case["init"]), C.cast(arr, sim.VP))
    else:
        H = L.ptrheap_init(ccmp, cset, None)
    check(H, "a heap could not be created")
    live = list(keys)

    def look():
        keep.reraise()
        m = L.ptrheap_getmin(H) or 0
        keep.reraise()
        if not live:
            check(m == 0, "an empty heap reports a minimum")
            return
        check(m in live, "the heap's minimum is not one of its elements")
        check(keys[m] == min(keys[x] for x in live), "the heap reports %d as minimum, but there is %d", keys[m], min(keys[x] for x in live))
        if case["cookies"]:
            ps = [pos.get(x) for x in live]
            check(None not in ps and len(set(ps)) == len(ps), "two elements have the same record cookie, or one has none")

    def pop(n):
        for _ in range(n):
            if not live:
                return
            look()
            m = L.ptrheap_getmin(H)
            L.ptrheap_deletemin(H)
            keep.reraise()
            live.remove(m)

    n = 0
    big = len(live)
    try:
        look()
        for op in case["ops"]:
            o = op[0]
            n += 1
            if o in ("add", "addfail"):
                h = nxt[0]
                nxt[0] += 1
                keys[h] = op[1]
                if o == "addfail":
                    L.sim_alloc_fail_at = 0
                r = L.ptrheap_add(H, h)
                failed = o == "addfail" and L.sim_alloc_fail_at == -1
                L.sim_alloc_fail_at = -1
                check(r == (-1 if failed else 0), "adding to the heap returned %d", r)
                if r == 0:
                    live.append(h)
                big = max(big, len(live))
            elif o == "delmin":
                pop(1)
            elif o == "drain":
                pop(op[1])
            elif o == "incmin":
                if live:
                    m = L.ptrheap_getmin(H)
                    keys[m] += op[1]
                    L.ptrheap_increasemin(H)
            elif case["cookies"] and live:
                x = live[op[1] % len(live)]
                if o == "del":
                    live.remove(x)
                    L.ptrheap_delete(H, pos[x])
                elif o == "inc":
                    keys[x] += op[2]
                    L.ptrheap_increase(H, pos[x])
                elif o == "dec":
                    keys[x] -= op[2]
                    L.ptrheap_decrease(H, pos[x])
            look()
        tot = len(live)
        pop(tot + 1)
        look()
    finally:
        L.ptrheap_free(H)
    return dict(nontrivial=n >= 3 and big >= 3, classes=["cookies" if case["cookies"] else "no-cookies", "big" if big > 20 else "small"])


# --- timer queue -------------------------------------------------------------------
tv = st.tuples(st.integers(0, 3), st.sampled_from([0, 1, 2, 500000, 999999]))


def tstrat(tier):
    op = st.one_of(st.tuples(st.just("add"), tv), st.tuples(st.just("add"), tv), st.tuples(st.just("del"), idx), st.tuples(st.just("inc"), idx, tv),
                   st.tuples(st.just("get"), tv), st.tuples(st.just("getall"), tv), st.tuples(st.just("addfail"), tv, st.integers(0, 3)))
    return st.fixed_dictionaries(dict(ops=st.lists(op, min_size=1, max_size=150 if tier == "thorough" else 60)))


def trun(case):
    L = sim.load()
    sim.fresh_sim(L)
    Q = L.timerqueue_init()
    check(Q, "a timer queue could not be created")
    live = {}       # ptr -> (tv, cookie)
    nxt, big = 1, 0

    def T(x):
        return C.byref(sim.Timeval(x[0], x[1]))

    def look():
        m = L.timerqueue_getmin(Q)
        if not live:
            check(not m, "an empty timer queue reports a time")
        else:
            want = min(t for t, _ in live.values())
            check(m and (m.contents.tv_sec, m.contents.tv_usec) == want, "the least time in the queue is %s, reported %s", want,
                  (m.contents.tv_sec, m.contents.tv_usec) if m else None)

    def get(t):
        p = L.timerqueue_getptr(Q, T(t)) or 0
        due = [x for x, (y, _) in live.items() if y <= t]
        if not due:
            check(p == 0, "a timer was handed out although none is due at %s", t)
            return False
        check(p in live, "a timer is due at %s but %s was handed out", t, "nothing" if not p else "something else")
        check(live[p][0] == min(live[x][0] for x in due), "timers were handed out in the wrong order")
        del live[p]
        return True

    try:
        look()
        for op in case["ops"]:
            o = op[0]
            if o in ("add", "addfail"):
                t = tuple(op[1])
                if o == "addfail":
                    L.sim_alloc_fail_at = op[2]
                c = L.timerqueue_add(Q, T(t), nxt)
                failed = o == "addfail" and L.sim_alloc_fail_at == -1
                L.sim_alloc_fail_at = -1
                check(bool(c) == (not failed), "adding a timer %s", "failed" if not c else "succeeded without memory")
                if c:
                    live[nxt] = (t, c)
                    nxt += 1
                big = max(big, len(live))
            elif o == "del" and live:
                p = sorted(live)[op[1] % len(live)]
                L.timerqueue_delete(Q, live.pop(p)[1])
            elif o == "inc" and live:
                p = sorted(live)[op[1] % len(live)]
                t = max(live[p][0], tuple(op[2]))
                L.timerqueue_increase(Q, live[p][1], T(t))
                live[p] = (t, live[p][1])
            elif o == "get":
                get(tuple(op[1]))
            elif o == "getall":
                while get(tuple(op[1])):
                    pass
            look()
        while live:
            get((9, 0))
        look()
    finally:
        L.timerqueue_free(Q)
    return dict(nontrivial=big >= 3, classes=["big" if big > 10 else "small"])


TARGETS = [
    Target("heap", strat, run, "at least three operations on a heap which held three or more elements", quick=(5, 2500, 14), thorough=(8, 60000, 200)),
    Target("timers", tstrat, trun, "the queue held three or more timers", quick=(3, 2500, 14), thorough=(6, 60000, 200)),
]
