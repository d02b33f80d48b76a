"""C19: accepting and connecting: every address in turn, one answer, nothing left behind."""
import ctypes as C, errno, struct
from hypothesis import strategies as st
from vf import gen, sim
from vf.core import Target, Violation, check

MS = 1000000
REFUSE = [111, 101, 110, 13, 11, 99]
outcome = st.one_of(st.just("later"), st.just("later"), st.just("later"), st.just("ok"), st.just("sock"), st.just("bind"), st.sampled_from(REFUSE), st.just("eintr"))


def strat(tier):
    ci = st.integers(0, 7)
    op = st.one_of(
        st.tuples(st.just("connect"), st.lists(outcome, max_size=5), st.sampled_from(["plain", "bind", "nobind", "timeo", "timeo"]), st.sampled_from([0, 1, 5, 50, 1000]),
                  st.sampled_from(["", "", "connect", "cancel-next", "stop"])),
        st.tuples(st.just("connect"), st.lists(outcome, min_size=1, max_size=5), st.sampled_from(["plain", "bind", "timeo"]), st.sampled_from([1, 5, 50]), st.just("")),
        st.tuples(st.just("done"), ci, st.sampled_from([0, 0, 0, 111, 110, 113])), st.tuples(st.just("done"), ci, st.sampled_from([0, 111])),
        st.tuples(st.just("cancel"), ci), st.tuples(st.just("run"), st.sampled_from([0, 0, 1, 4, 5, 49, 50, 51, 1000, 5000])), st.tuples(st.just("run"), st.just(0)),
        st.tuples(st.just("step"), st.sampled_from([0, 1, 5, 50])), st.tuples(st.just("stepcancel"), st.sampled_from([0, 1, 5, 50]), ci))
    return st.fixed_dictionaries(dict(ops=st.lists(op, min_size=1, max_size=60 if tier == "thorough" else 30), misc=gen.misc_tape, over=st.sampled_from([0, 0, 1, 3000000])))


class Att:
    pass


class W:
    def __init__(self, L, case):
        self.L = L
        self.keep = sim.Keep()
        self.att = []
        self.cb = self.keep.cb(sim.CB_VI, self.fired)
        self.cc = self.keep.cb(sim.CB_CONN, self.conncb)
        L.sim_set_conncb(self.cc)
        self.inreg = None
        self.fuel = 12
        self.stopped = 0
        self.ok = self.fail = self.tmo = self.canc = self.fell = 0
        self.over = case["over"]
        self.lists = []
        b = L.sock_resolve(b"[192.0.2.9]:4321")
        self.bindlist = b
        self.bindsa = C.cast(b, C.POINTER(sim.VP))[0]

    # -- the network's side -----------------------------------------------------
    def conncb(self, what, x, sa, n):
        L = self.L
        if what == 0:
            return 97 if x == 10 else 0       # no IPv6 here
        fam, a, port = sim.inet_of(C.string_at(sa, n))
        if what == 1:
            check((a, port) == ("192.0.2.9", 4321), "bound to %s port %d", a, port)
            return 0
        i, j = int(a.split(".")[2]), int(a.split(".")[3])
        t = self.att[i]
        check(t.cookie is not None or self.inreg is t, "an address is tried for an attempt which has ended")
        # Which addresses may have been passed over?
        while t.k < j:
            o = t.outs[t.k]
            check(o in ("sock", "bind") or t.state(t.k) == "failed", "address %d is tried although address %d (%s) has not failed", j, t.k, o)
            t.close_check(t.k)
            t.k += 1
        check(t.k == j and j not in t.eps, "address %d is tried out of order or again", j)
        t.eps[j] = x
        t.t[j] = L.sim_now
        if t.variant == "bind":
            check(L.bound(x) != b"", "a connection is made without binding to the requested address")
        else:
            check(L.bound(x) == b"", "a connection is bound although nobody asked for it")
        o = t.outs[j]
        if j > 0:
            self.fell += 1
        if o == "ok":
            return 0
        if o == "later":
            return errno.EINPROGRESS
        if o == "eintr":
            return errno.EINTR
        return o

    def connect(self, outs, variant, timeo, then):
        if len(self.att) >= 120:
            return
        L = self.L
        t = Att()
        t.i, t.variant, t.then, t.k, t.w = len(self.att), variant, then, 0, self
        t.outs = ["later" if o == "bind" and variant != "bind" else o for o in outs]
        t.outs = ["sock" if o == "bind" else o for o in t.outs]     # a bind failure looks like a socket failure from outside
        t.eps, t.t, t.timed = {}, {}, set()
        t.timeo = timeo * MS if variant == "timeo" else None
        t.result = None
        t.state = lambda j: state(L, t, j)
        t.close_check = lambda j: j in t.eps and check(L.sim_closed(t.eps[j]), "the socket of an address which failed is still open")
        specs = [("[2001:db8::%d]:%d" if o == "sock" else "[10.0.%d.%d]:80" % (t.i, j)) for j, o in enumerate(t.outs)]
        specs = [s % (j + 1, 80) if "%d" in s else s for j, s in enumerate(specs)]
        t.sas = sim.addrlist(L, specs)
        self.lists.append(t.sas)
        self.att.append(t)
        t.cookie = None
        self.inreg = t
        if variant == "timeo":
            tv = sim.Timeval(timeo // 1000, timeo % 1000 * 1000)
            t.cookie = L.network_connect_timeo(t.sas, C.byref(tv), self.cb, t.i)
        elif variant == "plain":
            t.cookie = L.network_connect(t.sas, self.cb, t.i)
        else:
            t.cookie = L.network_connect_bind(t.sas, self.bindsa if variant == "bind" else None, self.cb, t.i)
        self.inreg = None
        self.keep.reraise()
        check(t.cookie, "a connection attempt could not be started")
        check(t.result is None, "the callback ran before the attempt's cookie was returned")

    def fired(self, i, s):
        L = self.L
        t = self.att[i or 0]
        check(t.cookie is not None and t.result is None, "a connection attempt called back %s", "twice" if t.result is not None else "although it was cancelled")
        t.cookie = None
        t.result = s
        if s == -1:
            for j, o in enumerate(t.outs):
                check(o == "sock" or j in t.eps, "gave up without trying address %d", j)
                check(o == "sock" or state(L, t, j) == "failed", "gave up although address %d has not failed", j)
                t.close_check(j)
            self.fail += 1
        else:
            last = max(t.eps) if t.eps else None
            check(last is not None and L.sim_fd(t.eps[last]) == s and not L.sim_closed(t.eps[last]), "called back with a descriptor which is not that of the last address tried")
            check(L.sim_state(t.eps[last]) == 2, "called back with a socket which is not connected")
            check(L.sim_nonblock(t.eps[last]), "called back with a blocking socket")
            for j in t.eps:
                if j != last:
                    t.close_check(j)
            self.ok += 1
        then, self.fuel = t.then, self.fuel - 1
        if self.fuel > 0:
            if then == "connect":
                self.connect(["later", "ok"], "plain", 0, "")
            elif then == "cancel-next":
                self.cancel(t.i + 1)
            elif then == "stop":
                self.stopped = 5
                return 5
        return 0

    def cancel(self, i):
        if not self.att:
            return
        t = self.att[i % len(self.att)]
        if t.cookie is None:
            return
        c, t.cookie = t.cookie, None
        self.L.network_connect_cancel(c)
        t.result = "cancelled"
        self.canc += 1
        for j in t.eps:
            check(self.L.sim_closed(t.eps[j]), "cancelling left a socket open")

    def done(self, i, err):
        if not self.att:
            return
        t = self.att[i % len(self.att)]
        if t.eps and t.cookie is not None:
            ep = t.eps[max(t.eps)]
            if not self.L.sim_closed(ep):
                self.L.sim_connect_done(ep, err)

    def run(self, ms):
        L = self.L
        until = L.sim_now + ms * MS
        while True:
            rc = L.sim_run(until)
            self.keep.reraise()
            if rc and rc == self.stopped:
                self.stopped = 0
                continue
            break
        check(rc == 0, "the event loop was stopped with status %d", rc)
        check(not L.sim_livelock, "the event loop spins without making progress")
        for t in self.att:
            if t.cookie is None:
                continue
            check(t.eps, "no address is being tried, and no answer was given")
            j = max(t.eps)
            check(L.sim_state(t.eps[j]) == 1, "a connection attempt has %s but this goes unnoticed", "succeeded" if L.sim_state(t.eps[j]) == 2 else "failed")
            check(not L.sim_closed(t.eps[j]), "the attempt is waiting for a closed socket")
            if t.timeo is not None:
                check(L.sim_now < t.t[j] + t.timeo + 2 * MS + self.over or t.timeo == 0 and ms == 0, "an address is still being tried %d ms after its time limit", (L.sim_now - t.t[j] - t.timeo) // MS)
        nopen = sum(1 for t in self.att for j in t.eps if not L.sim_closed(t.eps[j]))
        want = sum(1 for t in self.att if t.cookie is not None or t.result not in (None, -1, "cancelled"))
        check(nopen == want == L.sim_nopen(), "%d sockets are open, expected %d", L.sim_nopen(), want)


def state(L, t, j):
    """Has address j failed, as seen by the code at this moment?"""
    o = t.outs[j]
    if o not in ("ok", "later", "eintr"):
        return "failed"
    ep = t.eps.get(j)
    if ep is None:
        return "untried"
    if L.sim_state(ep) == 3:
        return "failed"
    if t.timeo is not None and L.sim_now >= t.t[j] + t.timeo - 1000:
        t.timed.add(j)
        t.w.tmo += 1
        return "failed"
    return "connected" if L.sim_state(ep) == 2 else "pending"


def run(case):
    L = sim.load()
    sim.fresh_sim(L, b"", case["misc"])
    L.sim_oversleep = case["over"]
    w = W(L, case)
    try:
        for op in case["ops"]:
            if op[0] == "connect":
                w.connect(*op[1:])
            elif op[0] == "done":
                w.done(op[1], op[2])
            elif op[0] == "cancel":
                w.cancel(op[1])
            elif op[0] in ("step", "stepcancel"):
                rc = L.sim_once(L.sim_now + op[1] * MS, None)
                w.keep.reraise()
                check(rc in (0, w.stopped), "the event loop was stopped with status %d", rc)
                w.stopped = 0
                if op[0] == "stepcancel":
                    w.cancel(op[2])
            else:
                w.run(op[1])
        w.run(0)
        # Everything which has a time limit ends; the rest is answered.
        for _ in range(8):
            for t in w.att:
                w.done(t.i, 111)
            w.run(0)
        for t in w.att:
            check(t.cookie is None, "an attempt whose addresses have all failed gives no answer")
        p = L.problems()
        check(not p, "misuse of a descriptor: %s", p.strip())
    finally:
        for t in w.att:
            if t.cookie is not None:
                L.network_connect_cancel(t.cookie)
                t.cookie = None
        L.sim_set_conncb(C.cast(None, sim.CB_CONN))
        for s in w.lists + [w.bindlist]:
            L.sock_addr_freelist(s)
    cl = [k for k, v in (("fallback", w.fell), ("failed", w.fail), ("connected", w.ok), ("cancelled", w.canc), ("timeout", w.tmo)) if v]
    return dict(nontrivial=w.ok + w.fail >= 1 and w.fell >= 1, classes=cl)


# --- accepting -------------------------------------------------------------------
def astrat(tier):
    li = st.integers(0, 1)
    op = st.one_of(st.tuples(st.just("accept"), li, st.sampled_from(["", "again", "again", "cancel-other", "stop"])), st.tuples(st.just("accept"), li, st.just("again")),
                   st.tuples(st.just("incoming"), li, st.integers(1, 4)), st.tuples(st.just("incoming"), li, st.integers(1, 4)),
                   st.tuples(st.just("err"), st.sampled_from([11, 103, 4, 24, 23, 12, 0])), st.tuples(st.just("cancel"), li),
                   st.tuples(st.just("run")), st.tuples(st.just("run")), st.tuples(st.just("step")))
    return st.fixed_dictionaries(dict(ops=st.lists(op, min_size=1, max_size=80 if tier == "thorough" else 40), misc=gen.misc_tape))


def arun(case):
    L = sim.load()
    sim.fresh_sim(L, b"", case["misc"])
    keep = sim.Keep()
    lis = [L.sim_new_listener(), L.sim_new_listener()]
    cookie, then = {}, {}
    due = {0: [], 1: []}
    got = [0]
    errs = [0]
    fuel = [200]
    stopped = [0]
    pusherr = [0]
    fatal = [0]

    def begin(i, t):
        if i in cookie:
            return
        c = L.network_accept(L.sim_fd(lis[i]), cb, i)
        check(c, "accepting could not be started")
        cookie[i], then[i] = c, t

    def fired(i, s):
        i = i or 0
        check(i in cookie, "an accept which has ended or been cancelled called back")
        del cookie[i]
        if s == -1:
            check(fatal[0] > 0, "accepting failed although nothing went wrong")
            fatal[0] -= 1
            errs[0] += 1
        else:
            check(due[i], "a connection was accepted although none had arrived")
            e = due[i].pop(0)
            check(L.sim_fd(e) == s, "called back with a descriptor which is not that of the next connection in the queue")
            got[0] += 1
        fuel[0] -= 1
        t = then[i]
        if fuel[0] > 0:
            if t == "again":
                begin(i, t)
            elif t == "cancel-other" and (1 - i) in cookie:
                L.network_accept_cancel(cookie.pop(1 - i))
            elif t == "stop":
                stopped[0] = 3
                return 3
        return 0

    cb = keep.cb(sim.CB_VI, fired)

    def go(step=False):
        while True:
            rc = L.sim_once(L.sim_now, None) if step else L.sim_run(L.sim_now)
            keep.reraise()
            if rc and rc == stopped[0]:
                stopped[0] = 0
                if not step:
                    continue
                return
            break
        check(rc == 0, "the event loop was stopped with status %d", rc)
        check(not L.sim_livelock, "the event loop spins without making progress")
        if step:
            return
        for i in cookie:
            check(not due[i], "%d connections have arrived but are not accepted", len(due[i]))

    try:
        for op in case["ops"]:
            o = op[0]
            if o == "accept":
                begin(op[1], op[2])
            elif o == "incoming":
                for _ in range(op[2]):
                    if len(due[op[1]]) < 200:
                        due[op[1]].append(L.sim_incoming(lis[op[1]]))
            elif o == "err":
                L.sim_push_accept(op[1])
                pusherr[0] += 1
                if op[1] in (24, 23, 12):
                    fatal[0] += 1
            elif o == "cancel":
                if op[1] in cookie:
                    L.network_accept_cancel(cookie.pop(op[1]))
            else:
                go(o == "step")
        go()
        nerr = errs[0]
        p = L.problems()
        check(not p, "misuse of a descriptor: %s", p.strip())
        check(L.sim_nopen() == 2 + got[0], "%d descriptors are open after %d connections were accepted on 2 sockets", L.sim_nopen(), got[0])
    finally:
        for c in cookie.values():
            L.network_accept_cancel(c)
    return dict(nontrivial=got[0] >= 2, classes=[k for k, v in (("transient-or-fatal-error", pusherr[0]), ("reported-error", nerr), ("many", got[0] > 5)) if v])


# --- listening -------------------------------------------------------------------
ADDRS = {"[127.0.0.1]:4000": ("4", "127.0.0.1", 4000), "[0.0.0.0]:1": ("4", "0.0.0.0", 1), "[::1]:4000": ("6", "0" * 31 + "1", 4000),
         "[2001:db8::7]:65535": ("6", "20010db8" + "0" * 23 + "7", 65535), "/sock/a": ("u", "/sock/a", 0), "/" + "s" * 100: ("u", "/" + "s" * 100, 0)}


def lstrat(tier):
    op = st.tuples(st.sampled_from(sorted(ADDRS)), st.one_of(st.just(None), st.integers(0, 5)), st.sampled_from([0, 0, 92, 92, 12]), st.integers(0, 5), st.sampled_from([0, 0, 103, 11]))
    return st.fixed_dictionaries(dict(ops=st.lists(op, min_size=1, max_size=12), misc=gen.misc_tape))


def lrun(case):
    L = sim.load()
    sim.fresh_sim(L, b"", case["misc"])
    keep = sim.Keep()
    got = []
    cb = keep.cb(sim.CB_VI, lambda _c, s: got.append(s) and 0 or 0)
    made = failed = 0
    open0 = L.sim_nopen()
    lists = []
    try:
        for spec, fault, sso, nin, aerr in case["ops"]:
            sas = sim.addrlist(L, [spec])
            lists.append(sas)
            sa = C.cast(sas, C.POINTER(sim.VP))[0]
            L.sim_setsockopt_errno = sso
            n0 = L.sim_sys_failed
            if fault is not None:
                L.sim_sys_fail_at = fault
            s = L.sock_listener(sa)
            L.sim_sys_fail_at = -1
            L.sim_setsockopt_errno = 0
            hit = L.sim_sys_failed > n0
            if s == -1:
                check(hit or sso == 12, "listening at %s failed although nothing went wrong%s", spec, " (an option which does not exist is no failure)" if sso else "")
                check(L.sim_nopen() == open0 + made, "a failed attempt to listen leaves a descriptor open")
                failed += 1
                continue
            made += 1
            check(L.sim_nopen() == open0 + made, "listening opened more than one descriptor")
            e = L.sim_neps() - 1
            check(L.sim_fd(e) == s, "the descriptor returned is not that of the socket created")
            want = ADDRS[spec]
            check(sim.inet_of(L.bound(e)) == want, "listening at %s is bound to %r", spec, sim.inet_of(L.bound(e)))
            check(L.sim_type(e) == 1, "the socket is of type %d", L.sim_type(e))
            check(L.sim_domain(e) == {"4": 2, "6": 10, "u": 1}[want[0]], "the socket is of the wrong family")
            check(L.sim_listening(e) >= 0, "the socket does not listen")
            check(L.sim_nonblock(e), "the listening socket blocks")
            check(L.sim_reuse(e) or sso or hit, "an address used a moment ago cannot be bound again")
            # Connections which arrive there are accepted, however their number turns out to be smaller than announced
            if aerr:
                L.sim_push_accept(aerr)
            exp = [L.sim_incoming(e) for _ in range(nin)]
            for x in exp:
                del got[:]
                c = L.network_accept(s, cb, None)
                check(c, "accepting could not be started")
                rc = L.sim_run(L.sim_now)
                keep.reraise()
                check(rc == 0 and len(got) == 1 and got[0] == L.sim_fd(x), "a connection which arrived at %s was not accepted (%r)", spec, got)
                made += 1
            del got[:]
            c = L.network_accept(s, cb, None)
            rc = L.sim_run(L.sim_now)
            keep.reraise()
            check(rc == 0 and not got, "a connection was accepted although none had arrived")
            L.network_accept_cancel(c)
        p = L.problems()
        check(not p, "misuse of a descriptor: %s", p.strip())
    finally:
        L.sim_setsockopt_errno = 0
        L.sim_sys_fail_at = -1
        for x in lists:
            L.sock_addr_freelist(x)
    return dict(nontrivial=made >= 2, classes=[k for k, v in (("failed", failed), ("listening", made)) if v])


TARGETS = [
    Target("connect", strat, run, "an attempt was answered after falling back to a further address", quick=(6, 1800, 14), thorough=(8, 50000, 300)),
    Target("accept", astrat, arun, "at least two connections were accepted", quick=(2, 1800, 14), thorough=(4, 30000, 200)),
    Target("listen", lstrat, lrun, "a socket listens and at least one connection is accepted there", quick=(1, 600, 8), thorough=(2, 10000, 60)),
]
