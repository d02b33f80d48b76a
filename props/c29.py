"""C29: target names are looked up again in the background, and the newest answer is used."""
import ctypes as C, os, socket, struct, threading, time
from hypothesis import strategies as st
from vf import gen, sim, world
from vf.core import Target, Violation, check

EALREADY = 114
EAI_AGAIN = -3
MS = 1000000


class Resolver:
    """Stand-in for the resolver, called from the code's own threads."""

    def __init__(self, L):
        self.L, self.lock = L, threading.Condition()
        self.held = False
        self.answer = {}            # host -> list of last address bytes, or None
        self.log = []               # (host, port, virtual time)
        self.waiting = 0
        self.cb = sim.CB_GAI(self.gai)
        L.sim_set_gai(self.cb)

    def gai(self, node, svc, fam, ss, sl, mx):
        try:
            h = node.decode()
            with self.lock:
                self.log.append((h, svc.decode() if svc else None, self.L.sim_now))
                self.waiting += 1
                self.lock.notify_all()
                while self.held and not (isinstance(self.held, set) and h in self.held):
                    self.lock.wait(20)
                self.waiting -= 1
                a = self.answer.get(h)
                if a is None:
                    return EAI_AGAIN
                for i, x in enumerate(a):
                    b = struct.pack("=H", 2) + struct.pack(">H", int(svc)) + bytes([10, 9, x >> 8, x & 255]) + bytes(8)
                    C.memmove(ss + 128 * i, b, len(b))
                    C.memmove(sl + 4 * i, struct.pack("=I", len(b)), 4)
                return len(a)
        except BaseException:
            return EAI_AGAIN

    def release(self, what):
        with self.lock:
            self.held = what
            self.lock.notify_all()

    def close(self):
        self.release(False)
        end = time.monotonic() + 5
        with self.lock:
            while self.waiting and time.monotonic() < end:
                self.lock.wait(0.1)


def names(L, sas):
    """Last two bytes and port of each address in a list."""
    out = []
    arr = C.cast(sas, C.POINTER(sim.VP))
    i = 0
    while arr[i]:
        p, n = sim.VP(), sim.SZ()
        check(L.sock_addr_serialize(arr[i], C.byref(p), C.byref(n)) == 0, "serializing failed")
        b = C.string_at(p, n.value)
        L.sim_free(p)
        a = b[-16:]
        out.append((a[6] << 8 | a[7], struct.unpack(">H", a[2:4])[0]))
        i += 1
    return out


# --- the resolver threads themselves -----------------------------------------------
def tstrat(tier):
    h = st.integers(0, 5)
    i = st.integers(0, 2)
    op = st.one_of(st.tuples(st.just("one"), i, h), st.tuples(st.just("one"), i, h), st.tuples(st.just("chain"), i, h, h), st.tuples(st.just("resolve"), h),
                   st.tuples(st.just("collect")), st.tuples(st.just("collect")), st.tuples(st.just("finish")), st.tuples(st.just("kill"), i), st.tuples(st.just("numeric"), i), st.tuples(st.just("bad"), i))
    return st.fixed_dictionaries(dict(ops=st.lists(op, min_size=1, max_size=14), fail=st.lists(h, max_size=2), nadd=st.integers(1, 3)))


def trun(case):
    L = sim.load()
    sim.fresh_sim(L)
    return leakfree(L, lambda: tonce(L, case))


def state(L):
    return L.sim_alloc_live, len(os.listdir("/proc/self/fd"))


def leakfree(L, f):
    """Run f; memory and descriptors must not grow every time.  (Pools of the event loop grow now and then.)"""
    L.sim_alloc_track = 1
    r = f()
    for i in range(5):
        s0 = state(L)
        r = f()
        end = time.monotonic() + 2          # (threads of one-shot lookups end by themselves)
        while True:
            s1 = state(L)
            if s1[0] <= s0[0] and s1[1] <= s0[1]:
                return r
            if time.monotonic() > end:
                break
            time.sleep(0.001)
    check(s1[0] <= s0[0], "%d pieces of memory are never released", s1[0] - s0[0])
    check(s1[1] <= s0[1], "%d descriptors are never closed", s1[1] - s0[1])
    return r


def tonce(L, case):
    R = Resolver(L)
    for h in range(6):
        R.answer["h%d" % h] = None if h in case["fail"] else [h * 10 + k for k in range(case["nadd"])]
    keep = sim.Keep()
    T = [None] * 3
    busy = [None] * 3           # what is being looked up
    want, got = [], []          # expected callbacks, in no particular order; those made
    cls = set()

    def result(h):
        if h == "num":
            return [(5, 77)]
        if h == "bad":
            return None
        return None if h in case["fail"] else [(h * 10 + k, 1000 + h) for k in range(case["nadd"])]

    def addr(h):
        return b"[10.9.0.5]:77" if h == "num" else b"[10.0.0.1]:99999" if h == "bad" else b"h%d:%d" % (h, 1000 + h)

    def ask(i, h, then=None):
        tag = len(want)

        def done(ck, sas):
            r = None
            check(ck == tag * 8 + 8, "the callback got the cookie %r instead of its own", ck)
            if sas:
                r = names(L, sas)
                L.sock_addr_freelist(sas)
            got.append((tag, r))
            if i is not None:
                busy[i] = None
            if then is not None:
                ask(i, then)
        cb = keep.cb(sim.CB_VP, done)
        if i is None:
            rc = L.dnsthread_resolve(addr(h), cb, tag * 8 + 8)
            check(rc == 0, "starting a lookup failed")
            want.append((tag, result(h)))
            return
        L.g_set_errno(0)
        rc = L.dnsthread_resolveone(T[i], addr(h), cb, tag * 8 + 8)
        e = L.g_get_errno()
        if busy[i] is not None:
            check(e == EALREADY, "a lookup was asked for while another is under way: returned %d, errno %d", rc, e)
            cls.add("busy")
        else:
            check(rc == 0 and e != EALREADY, "a lookup was refused (returned %d, errno %d) although none is under way", rc, e)
            busy[i] = tag
            want.append((tag, result(h)))

    def collect():
        """Let everything under way finish, and be told."""
        R.release(False)
        L.sim_realwait_ms = 3000
        end = time.monotonic() + 10
        while len(got) < len(want) and time.monotonic() < end:
            rc = L.sim_run(L.sim_now)
            keep.reraise()
            check(rc == 0, "the event loop was stopped with status %d", rc)
        L.sim_realwait_ms = 0
        L.sim_run(L.sim_now)
        keep.reraise()
        check(sorted(got) == sorted(want), "lookups ended with %r, expected %r", sorted(got), sorted(want))
        R.release(True)

    try:
        R.release(True)
        for op in case["ops"]:
            if op[0] in ("one", "chain", "numeric", "bad", "kill") and T[op[1]] is None:
                T[op[1]] = L.dnsthread_spawn()
                check(T[op[1]], "starting a resolver thread failed")
            if op[0] == "one":
                ask(op[1], op[2])
            elif op[0] == "numeric":
                ask(op[1], "num")
            elif op[0] == "bad":
                ask(op[1], "bad")
            elif op[0] == "chain":
                if busy[op[1]] is None:
                    ask(op[1], op[2], op[3])
                    cls.add("chain")
            elif op[0] == "resolve":
                ask(None, op[1])
            elif op[0] == "collect":
                collect()
            elif op[0] == "finish":
                # The answer is there but nobody has been told yet.
                R.release(False)
                time.sleep(0.01)
                cls.add("finish")
                with R.lock:
                    pass
                R.release(True)
            elif op[0] == "kill":
                if busy[op[1]] is None:
                    check(L.dnsthread_kill(T[op[1]]) == 0, "ending a resolver thread failed")
                    T[op[1]] = None
                    cls.add("kill")
        collect()
        for i in range(3):
            if T[i] is not None:
                check(L.dnsthread_kill(T[i]) == 0, "ending a resolver thread failed")
                T[i] = None
        check(L.sim_gai_live == 0, "%d answers of the resolver were not released", L.sim_gai_live)
        return dict(nontrivial=len(want) > 0, classes=sorted(cls) + ["lookups"] * bool(want))
    finally:
        R.close()
        L.sim_set_gai(C.cast(None, sim.CB_GAI))
        L.sim_gai_live = 0
        L.sim_realwait_ms = 0


# --- the daemon --------------------------------------------------------------------------
def dstrat(tier):
    ans = st.one_of(st.none(), st.lists(st.integers(1, 60), min_size=1, max_size=3), st.lists(st.integers(1, 60), min_size=1, max_size=3))
    op = st.one_of(st.tuples(st.just("adv"), st.sampled_from([1, 500, 999, 1000, 1001, 2500, 60000])), st.tuples(st.just("adv"), st.sampled_from([500, 1000, 3000])),
                   st.tuples(st.just("dns"), ans), st.tuples(st.just("dns"), ans), st.tuples(st.just("arrive")), st.tuples(st.just("arrive")), st.tuples(st.just("stay")), st.tuples(st.just("hold")), st.tuples(st.just("release")))
    return st.fixed_dictionaries(dict(role=st.integers(0, 1), leaks=st.booleans(), R=st.sampled_from([0.0, 0.5, 1.0, 1.0, 60.0, 2.25]), first=ans, ops=st.lists(op, min_size=2, max_size=24)))


def drun(case):
    L = sim.load()
    sim.fresh_sim(L)
    return leakfree(L, lambda: donce(L, case)) if case["leaks"] else donce(L, case)


def donce(L, case):
    sim.fresh_sim(L)
    R = Resolver(L)
    R.answer["tgt"] = case["first"]
    keep = sim.Keep()
    L.sim_connect_default = 111         # every address is refused: all of them get tried
    lis = L.sim_new_listener()
    done = C.c_int(0)
    cur = [("10.0.0.1", 1234), ("10.0.0.2", 1234)]
    sas = sim.addrlist(L, ["[%s]:%d" % a for a in cur])
    A = None
    cls = set()
    T = int(case["R"] * 1000 * MS)
    nlook = 0

    def run(ms):
        """Advance the clock; lookups take no (virtual) time unless held."""
        rc = L.sim_run(L.sim_now + ms * MS)
        keep.reraise()
        check(rc == 0, "the event loop was stopped with status %d, which ends the daemon", rc)
        check(not L.sim_livelock, "the event loop spins")

    try:
        A = L.dispatch_accept(L.sim_fd(lis), b"tgt:4321", case["R"], sas, None, case["role"], 0, 0, 0, world.secret(L, b"c29"), 2**64 - 1, 1e6, C.byref(done))
        check(A, "the dispatcher could not be started")
        due = L.sim_now + T if T else None      # when the next lookup begins
        pending = False                          # a lookup is being held
        run(0)
        for op in case["ops"]:
            if op[0] == "dns":
                R.answer["tgt"] = op[1]
            elif op[0] == "hold":
                if not pending:
                    R.release(True)
            elif op[0] == "release":
                R.release(False)
                if pending:
                    pending = False
                    L.sim_realwait_ms = 3000
                    run(0)
                    L.sim_realwait_ms = 0
                    if R.answer["tgt"] is not None:
                        cur = [("10.9.0.%d" % x, 4321) for x in R.answer["tgt"]]
                    due = L.sim_now + T
                    cls.add("held-lookup")
            elif op[0] == "adv":
                end = L.sim_now + op[1] * MS
                if T and op[1] > 20 * case["R"] * 1000:
                    end = L.sim_now + 20 * T
                while due is not None and not pending and due <= end - 3 * MS:
                    # A moment before: nothing.  A moment after: looked up.
                    if due - 2 * MS > L.sim_now:
                        L.sim_realwait_ms = 0
                        run((due - 2 * MS - L.sim_now) // MS)
                        time.sleep(0)
                        check(len(R.log) == nlook, "the target was looked up %.3f s too early", (due - L.sim_now) / 1e9)
                    held = R.held
                    L.sim_realwait_ms = 0 if held else 3000
                    L.sim_run(min(due + 2 * MS, end))
                    keep.reraise()
                    if held:
                        t = time.monotonic() + 5
                        while len(R.log) == nlook and time.monotonic() < t:
                            time.sleep(0.001)
                    L.sim_realwait_ms = 0
                    check(len(R.log) == nlook + 1, "the target was looked up %d times instead of once when %.2f s had passed", len(R.log) - nlook, case["R"])
                    check(R.log[-1][:2] == ("tgt", "4321"), "%r was looked up instead of the target", R.log[-1][:2])
                    nlook += 1
                    if held:
                        pending = True
                    else:
                        if R.answer["tgt"] is not None:
                            cur = [("10.9.0.%d" % x, 4321) for x in R.answer["tgt"]]
                            cls.add("new-answer")
                        else:
                            cls.add("failed")
                        due = R.log[-1][2] + T
                if end - L.sim_now > 0 and (due is None or pending or due > end + 3 * MS):
                    run((end - L.sim_now) // MS)
                check(len(R.log) == nlook, "the target was looked up although it is not time yet")
            elif op[0] in ("arrive", "stay"):
                L.sim_connect_default = 111 if op[0] == "arrive" else 115
                n0 = L.sim_nconnects()
                L.sim_incoming(lis)
                run(0)
                tried = [sim.inet_of(L.peer(L.sim_connect_ep(k)))[1:] for k in range(n0, L.sim_nconnects())]
                check(tried == (cur if op[0] == "arrive" else cur[:1]), "a connection tried %r; the newest addresses of the target are %r", tried, cur)
                cls.add("arrive-during-lookup" if pending else "arrive")
        return dict(nontrivial=nlook > 0 and any(c.startswith("arrive") for c in cls), classes=sorted(cls) + (["lookups-%d" % min(nlook, 5)] if T else ["never"]))
    finally:
        R.release(False)
        if pending_release(L, R):
            L.sim_realwait_ms = 1000
            L.sim_run(L.sim_now)
        L.sim_realwait_ms = 0
        if A:
            L.dispatch_shutdown(A)
        R.close()
        L.sim_connect_default = 115
        L.sim_set_gai(C.cast(None, sim.CB_GAI))
        L.sim_gai_live = 0


def pending_release(L, R):
    with R.lock:
        return R.waiting > 0


# --- how resolver threads end ---------------------------------------------------------
def kstrat(tier):
    return st.fixed_dictionaries(dict(looks=st.lists(st.integers(0, 5), max_size=3), busy=st.booleans(), settle=st.booleans(), hold=st.sampled_from([0, 1, 5]), n=st.integers(1, 3)))


def kenum(tier):
    # Stacks of threads nobody waits for would add up.
    return [dict(looks=x, busy=False, settle=y, hold=0, n=60) for x in ([], [1]) for y in (False, True)]


def tasks():
    return len(os.listdir("/proc/self/task"))


def vsize():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[0]) * os.sysconf("SC_PAGESIZE")


def krun(case):
    L = sim.load()
    sim.fresh_sim(L)
    fds0, n0 = set(os.listdir("/proc/self/fd")), tasks()
    for i in range(3):
        konce(L, dict(case, busy=False), fds0)      # (pools, and the stacks the C library keeps)
    v0 = vsize()
    for i in range(case["n"]):
        konce(L, case, fds0)
    if not case["busy"]:
        g = vsize() - v0
        check(g < 40 * 2**20 + case["n"] * 2 * 2**20, "after %d resolver threads were started and ended while idle, %d MB of address space are still taken: they were not waited for", case["n"], g >> 20)
    end = time.monotonic() + 5
    while tasks() > n0 and time.monotonic() < end:
        time.sleep(0.001)
    check(tasks() <= n0, "%d resolver threads are still running after they were told to end", tasks() - n0)
    end = time.monotonic() + 5
    while len(os.listdir("/proc/self/fd")) > len(fds0) and time.monotonic() < end:
        time.sleep(0.001)
    check(len(os.listdir("/proc/self/fd")) <= len(fds0), "descriptors of ended resolver threads are still open")
    return dict(nontrivial=bool(case["looks"]) or case["busy"], classes=["busy" if case["busy"] else "idle"])


def konce(L, case, fds0):
    R = Resolver(L)
    for h in range(6):
        R.answer["h%d" % h] = [h]
    keep = sim.Keep()
    got = []

    def done(ck, sas):
        got.append(ck)
        if sas:
            L.sock_addr_freelist(sas)
    cb = keep.cb(sim.CB_VP, done)
    try:
        R.release(False)
        fds = set(os.listdir("/proc/self/fd"))
        T = L.dnsthread_spawn()
        check(T, "starting a resolver thread failed")
        new = set(os.listdir("/proc/self/fd")) - fds
        for k, h in enumerate(case["looks"]):
            check(L.dnsthread_resolveone(T, b"h%d:7" % h, cb, k + 1) == 0, "asking for a lookup failed")
            L.sim_realwait_ms = 3000
            end = time.monotonic() + 10
            while len(got) <= k and time.monotonic() < end:
                L.sim_run(L.sim_now)
                keep.reraise()
            L.sim_realwait_ms = 0
            check(got == list(range(1, k + 2)), "lookups reported: %r of %d", got, k + 1)
        if case["settle"]:
            time.sleep(0.002)
        n = len(got)
        if case["busy"]:
            R.release(True)
            check(L.dnsthread_resolveone(T, b"h3:7", cb, 99) == 0, "asking for a lookup failed")
            t = time.monotonic() + 5
            with R.lock:
                while not R.waiting and time.monotonic() < t:
                    R.lock.wait(0.1)
            check(R.waiting, "the lookup did not begin")
            # It does not wait for the lookup (which is being held up).
            t = time.monotonic()
            check(L.dnsthread_kill(T) == 0, "ending a resolver thread failed")
            check(time.monotonic() - t < 4 and R.waiting, "ending a busy resolver thread waited for its lookup")
            for f in new:
                L.events_network_cancel(int(f), 0)
            time.sleep(case["hold"] / 1000)
            R.release(False)
        else:
            check(L.dnsthread_kill(T) == 0, "ending a resolver thread failed")
        check(len(got) == n, "an answer was reported after the end of the thread")
        check(len(R.log) == len(case["looks"]) + case["busy"], "%d lookups were made instead of %d", len(R.log), len(case["looks"]) + case["busy"])
    finally:
        R.close()
        L.sim_set_gai(C.cast(None, sim.CB_GAI))
        L.sim_gai_live = 0
        L.sim_realwait_ms = 0


TARGETS = [Target("ended", kstrat, krun, "a thread which had work to do was told to end", quick=(2, 60, 8), thorough=(3, 2000, 60), enum=kenum),
           Target("threads", tstrat, trun, "at least one lookup", quick=(4, 500, 12), thorough=(8, 20000, 150)),
           Target("daemon", dstrat, drun, "a lookup was due and a connection arrived", quick=(4, 500, 14), thorough=(8, 20000, 150))]
