"""C16: elastic arrays behave as arrays, within bounded storage; memory pools never hand out one object twice."""
import ctypes as C
from hypothesis import strategies as st
from vf import gen, sim
from vf.core import Target, check

M64 = 2**64
cnt = st.one_of(st.sampled_from([0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 64]), st.integers(0, 300))
RL = [1, 2, 3, 4, 8, 24, 100]
huge = st.sampled_from([M64 - 1, M64 // 2, M64 // 2 + 1, M64 // 3 + 1, M64 // 4, M64 // 8, M64 // 8 - 1, M64 // 24 + 1, 1 << 62])


def strat(tier):
    op = st.one_of(st.tuples(st.just("append"), cnt), st.tuples(st.just("append"), cnt), st.tuples(st.just("resize"), cnt), st.tuples(st.just("shrink"), cnt),
                   st.tuples(st.just("trunc")), st.tuples(st.just("set"), st.integers(0, 1000)), st.tuples(st.just("dup")),
                   st.tuples(st.just("hugeresize"), huge), st.tuples(st.just("hugeappend"), huge), st.tuples(st.just("hugeshrink"), huge),
                   st.tuples(st.just("fail"), st.sampled_from(["append", "resize", "shrink", "trunc", "dup"]), cnt))
    return st.fixed_dictionaries(dict(reclen=st.sampled_from(RL), init=cnt, ops=st.lists(op, max_size=80 if tier == "thorough" else 40), export=st.booleans(), typed=st.sampled_from([0, 0, 1])))


def run(case):
    L = sim.load()
    sim.fresh_sim(L)
    typed = case["typed"]
    rl = 7 if typed else case["reclen"]
    g = L.cdll
    g.g_ea7_init.restype = g.g_ea7_get.restype = sim.VP
    g.g_ea7_getsize.restype = g.g_ea7_iter.restype = sim.SZ
    Z, V = sim.SZ, sim.VP
    if typed:
        init = lambda n: g.g_ea7_init(Z(n))
        resize = lambda n: g.g_ea7_resize(V(EA), Z(n))
        size = lambda: g.g_ea7_getsize(V(EA))
        append = lambda b, n: g.g_ea7_append(V(EA), b, Z(n))
        shrink = lambda n: g.g_ea7_shrink(V(EA), Z(n))
        trunc = lambda: g.g_ea7_truncate(V(EA))
        get = lambda i: g.g_ea7_get(V(EA), Z(i))
        free = lambda: g.g_ea7_free(V(EA))
        dup = lambda p, n: g.g_ea7_exportdup(V(EA), C.byref(p), C.byref(n))
        export = lambda p, n: g.g_ea7_export(V(EA), C.byref(p), C.byref(n))
    else:
        init = lambda n: L.elasticarray_init(n, rl)
        resize = lambda n: L.elasticarray_resize(EA, n, rl)
        size = lambda: L.elasticarray_getsize(EA, rl)
        append = lambda b, n: L.elasticarray_append(EA, b, n, rl)
        shrink = lambda n: L.elasticarray_shrink(EA, n, rl)
        trunc = lambda: L.elasticarray_truncate(EA)
        get = lambda i: L.elasticarray_get(EA, i, rl)
        free = lambda: L.elasticarray_free(EA)
        dup = lambda p, n: L.elasticarray_exportdup(EA, C.byref(p), C.byref(n), rl)
        export = lambda p, n: L.elasticarray_export(EA, C.byref(p), C.byref(n), rl)
    L.sim_alloc_track = 1
    base, nbase = L.sim_alloc_bytes, L.sim_alloc_live
    EA = init(case["init"])
    check(EA, "an array could not be created")
    hdr = L.sim_alloc_bytes - base - case["init"] * rl
    want = bytearray()
    ctr, slack_ok = 0, False

    def fill(n):
        nonlocal ctr
        ctr += 1
        return bytes((ctr * 37 + i * 11) & 255 for i in range(n))

    def look():
        check(size() == len(want) // rl, "the array has %d records, expected %d", size(), len(want) // rl)
        if want:
            check(C.string_at(get(0), len(want)) == bytes(want), "the array's contents are wrong")
            last = len(want) // rl - 1
            check(get(last) == get(0) + last * rl, "record %d is at the wrong place", last)
        used = L.sim_alloc_bytes - base - hdr
        check(used >= len(want), "the array holds %d bytes in an allocation of %d", len(want), used)
        if not slack_ok:
            # "within a factor of 4 of the optimal size" (integer division: < 4n+4)
            check(used <= 4 * len(want) + 3, "%d bytes of storage for %d bytes of data", used, len(want))

    def failing(on):
        L.sim_alloc_fail_at = 0 if on else -1

    def grown(n):
        """After a resize the new records are uninitialised: give them values."""
        old = len(want)
        del want[n:]
        if n > old:
            b = fill(n - old)
            C.memmove(get(0) + old, b, n - old)
            want.extend(b)

    n = 0
    try:
        grown(case["init"] * rl)
        look()
        for op in case["ops"]:
            o = op[0]
            n += 1
            fail = o == "fail"
            if fail:
                o, arg = op[1], op[2]
                failing(True)
            elif len(op) > 1:
                arg = op[1]
            cur = len(want)
            if o == "append":
                b = fill(arg * rl)
                r = append(b, arg)
                hit = fail and L.sim_alloc_fail_at == -1
                check(r == (-1 if hit else 0), "appending %d records returned %d", arg, r)
                if r == 0:
                    want.extend(b)
                    slack_ok = False
            elif o == "resize":
                r = resize(arg)
                hit = fail and L.sim_alloc_fail_at == -1
                check(r == (-1 if hit else 0), "resizing to %d records returned %d", arg, r)
                if r == 0:
                    failing(False)
                    grown(arg * rl)
                    slack_ok = False
            elif o == "shrink":
                shrink(arg)
                slack_ok = fail and L.sim_alloc_fail_at == -1
                del want[max(0, cur - arg * rl):]
            elif o == "trunc":
                r = trunc()
                hit = fail and L.sim_alloc_fail_at == -1
                check(r == (-1 if hit else 0), "truncating returned %d", r)
                if r == 0:
                    slack_ok = False
                    used = L.sim_alloc_bytes - base - hdr
                    check(used == len(want), "%d bytes of storage for %d bytes of data after releasing spare space", used, len(want))
            elif o == "dup":
                p, k = C.c_void_p(), C.c_size_t()
                r = dup(p, k)
                hit = fail and L.sim_alloc_fail_at == -1
                check(r == (-1 if hit else 0), "duplicating returned %d", r)
                if r == 0:
                    check(k.value == len(want) // rl and (not want or C.string_at(p, len(want)) == bytes(want)), "the duplicate differs from the array")
                    L.sim_free(p)
            elif o == "hugeresize":
                check(resize(arg) == -1, "resizing to %d records of %d bytes succeeded", arg, rl)
            elif o == "hugeappend":
                check(append(b"x", arg) == -1, "appending %d records of %d bytes succeeded", arg, rl)
            elif o == "hugeshrink":
                shrink(arg)
                del want[:]
                slack_ok = False
            elif o == "set" and want:
                i = arg % (len(want) // rl)
                b = fill(rl)
                C.memmove(get(i), b, rl)
                want[i * rl:(i + 1) * rl] = b
            failing(False)
            if typed and want:
                out = C.create_string_buffer(len(want) + 8)
                k = g.g_ea7_iter(V(EA), out)
                check(k == len(want) // rl and out.raw[:len(want)] == bytes(want), "iterating visits the wrong records")
            look()
    finally:
        L.sim_alloc_fail_at = -1
        if case["export"]:
            p, k = C.c_void_p(), C.c_size_t()
            r = export(p, k)
            okx = r == 0 and k.value == len(want) // rl and (not want or C.string_at(p, len(want)) == bytes(want))
            if r == 0:
                L.sim_free(p)
        else:
            free()
            okx = True
        leak = L.sim_alloc_live - nbase
        L.sim_alloc_track = 0
    check(okx, "the exported buffer differs from the array")
    check(leak == 0, "%d allocations left after the array was freed", leak)
    return dict(nontrivial=n >= 3 and bool(want), classes=["typed" if typed else "plain", "export" if case["export"] else "free"])


# --- memory pools ------------------------------------------------------------------
def mstrat(tier):
    op = st.one_of(st.tuples(st.just("a"), st.integers(1, 12)), st.tuples(st.just("f"), st.integers(1, 12), st.integers(0, 100)), st.tuples(st.just("afail")), st.tuples(st.just("ffail"), st.integers(0, 100)))
    return st.fixed_dictionaries(dict(pool=st.sampled_from([1, 4]), ops=st.lists(op, min_size=1, max_size=120 if tier == "thorough" else 50)))


def mrun(case):
    L = sim.load()
    sim.fresh_sim(L)
    g = L.cdll
    al, fr = (g.g_mp1_malloc, g.g_mp1_free) if case["pool"] == 1 else (g.g_mp4_malloc, g.g_mp4_free)
    al.restype, fr.argtypes = sim.VP, [sim.VP]
    live = {}
    tag = total = 0

    def take():
        nonlocal tag, total
        p = al()
        if not p:
            return False
        check(p not in live, "an object in use was handed out a second time")
        tag = (tag + 1) & 255
        total += 1
        C.memset(p, tag, 48)
        live[p] = tag
        return True

    def give(i):
        p = list(live)[i % len(live)]
        t = live.pop(p)
        check(C.string_at(p, 48) == bytes([t]) * 48, "an object in use was written to by the allocator")
        fr(p)

    try:
        for op in case["ops"]:
            if op[0] == "a":
                for _ in range(op[1]):
                    check(take(), "no object although there is memory")
            elif op[0] == "f":
                for j in range(min(op[1], len(live))):
                    give(op[2] + j)
            elif op[0] == "afail":
                L.sim_alloc_fail_at = 0
                ok = take()
                check(ok == (L.sim_alloc_fail_at != -1), "allocation failure was not reported")
                L.sim_alloc_fail_at = -1
            elif live:
                L.sim_alloc_fail_at = 0
                give(op[1])
                L.sim_alloc_fail_at = -1
        for p, t in live.items():
            check(C.string_at(p, 48) == bytes([t]) * 48, "an object in use was written to by the allocator")
        fr(None)
    finally:
        L.sim_alloc_fail_at = -1
        while live:
            fr(live.popitem()[0])
    return dict(nontrivial=total > case["pool"], classes=["pool%d" % case["pool"]])


TARGETS = [
    Target("array", strat, run, "at least three operations, and the array is not empty at the end", quick=(5, 1500, 14), thorough=(8, 60000, 200)),
    Target("pool", mstrat, mrun, "more objects than the pool keeps", quick=(3, 1500, 12), thorough=(4, 60000, 120)),
]
