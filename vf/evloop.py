"""Event loop histories: operations from outside and from inside callbacks, against a model."""
import ctypes as C, math
from hypothesis import strategies as st
from . import gen, sim
from .core import Violation, check

POLLIN, POLLOUT, POLLERR, POLLHUP = 1, 4, 8, 16
NREG = 400              # callbacks beyond this many do nothing
EEXIST, ENOENT = 17, 2

usec = st.one_of(st.sampled_from([0, 1, 999, 1000, 1001, 999999, 1000000, 1000001, 5000000, 86400000000, 3000000000000]),
                 st.integers(0, 5000), st.integers(0, 10000000))
dbl = st.one_of(st.sampled_from([0.0, 0.000001, 0.1, 0.3, 1.0, 1.5, 2.0000005, 5.0, 3600.0, 1e9]), st.floats(0, 100, allow_nan=False))
rc = st.sampled_from([0] * 12 + [-1, 1, 7])
scr = st.integers(0, 5)
k = st.integers(0, 30)
adv = st.one_of(st.sampled_from([0, 1, 999, 1000, 10**6, 10**9]), st.integers(0, 3 * 10**9))
ep = st.integers(0, 39)


def imm_ops():
    return [st.tuples(st.just("imm"), st.one_of(st.integers(0, 31), st.sampled_from([0, 1, 2, 30, 31])), scr, rc),
            st.tuples(st.just("imm"), st.sampled_from([0, 3, 3, 31]), scr, rc),
            st.tuples(st.just("imm_cancel"), k)]


def tim_ops():
    return [st.tuples(st.just("tim"), usec, scr, rc), st.tuples(st.just("tim"), st.sampled_from([1000, 2000, 3000]), scr, rc),
            st.tuples(st.just("timd"), dbl, scr, rc), st.tuples(st.just("tim_cancel"), k), st.tuples(st.just("tim_reset"), k), st.tuples(st.just("tim_reset"), k),
            st.tuples(st.just("adv"), adv)]


def net_ops():
    d = st.sampled_from([0, 1])
    return [st.tuples(st.just("net"), ep, d, scr, rc), st.tuples(st.just("net"), ep, d, scr, rc), st.tuples(st.just("net_cancel"), ep, d),
            st.tuples(st.just("feed"), ep), st.tuples(st.just("drain"), ep), st.tuples(st.just("block"), ep), st.tuples(st.just("unblock"), ep),
            st.tuples(st.just("err"), ep), st.tuples(st.just("hup"), ep), st.tuples(st.just("netall"), d, scr), st.tuples(st.just("netnone"), d),
            st.tuples(st.just("rearm"), ep, d, scr)]


def strategy(kinds, tier):
    def s(t):
        ops, base = [], []
        for n in kinds:
            x = {"imm": imm_ops, "tim": tim_ops, "net": net_ops}[n]()
            ops += x * (3 if n == kinds[0] else 1)
        inner = ops + [st.tuples(st.just("interrupt")), st.tuples(st.just("adv"), adv), st.tuples(st.just("done"))]
        outer = ops * 2 + [st.tuples(st.just("run"), adv)] * 4 + [st.tuples(st.just("once"), adv)] * 4 + [st.tuples(st.just("spin"), adv), st.tuples(st.just("adv"), adv), st.tuples(st.just("wall"), st.integers(-10**6, 10**6))]
        m = 90 if tier == "thorough" else 40
        return st.fixed_dictionaries(dict(scripts=st.lists(st.lists(st.one_of(inner), max_size=5), min_size=1, max_size=6),
                                          main=st.lists(st.one_of(outer), min_size=2, max_size=m), misc=gen.misc_tape,
                                          neps=st.sampled_from([1, 2, 3, 8, 40]), over=st.sampled_from([0, 0, 0, 1, 10**6, 10**9]),
                                          t0=st.sampled_from([0, 999, 999999999, 123456789])))
    return s


class Loop:
    def __init__(self, case):
        L = self.L = sim.load()
        self.case = case
        sim.fresh_sim(L, b"", case["misc"])
        L.sim_now = L.sim_now + case["t0"]
        L.sim_oversleep = case["over"]
        self.keep = sim.Keep()
        self.eps = [L.sim_new_stream() for _ in range(case["neps"])]
        self.fds = [L.sim_fd(e) for e in self.eps]
        self.fed = [0] * case["neps"]
        self.unready = {}               # (i, d) -> sim_npoll when it stopped being ready
        self.imm = {}                   # prio -> [Reg]
        self.tim = []                   # live timers
        self.net = {}                   # (i, d) -> Reg
        self.seq = 0
        self.ran = 0
        self.done = C.c_int(0)
        self.interrupted = self.failed = None
        self.inrun = False
        self.busy = L.sim_now           # when the outside or a callback last did something
        self.fire_kinds = set()
        self.cancelled = self.nested = self.resets = 0
        L.sim_poll_limit = 5000

    # --- helpers
    def us(self):
        return self.L.sim_now // 1000

    def ready(self, i, d):
        b = self.L.sim_ready(self.eps[i])
        return bool(b & ((POLLIN, POLLOUT)[d] | POLLERR | POLLHUP))

    def snap(self):
        return {key: self.ready(*key) for key in self.net}

    def change(self, i, fn):
        before = [self.ready(i, 0), self.ready(i, 1)]
        for d in (0, 1):
            if before[d] and (i, d) in self.net:
                self.net[(i, d)]["ready"] = True
        fn()
        for d in (0, 1):
            if before[d] and not self.ready(i, d):
                self.unready[(i, d)] = self.L.sim_npoll

    def mk(self, kind, script, rc, **kw):
        r = dict(kind=kind, script=script % len(self.case["scripts"]), rc=rc, state="live", **kw)
        r["cb"] = self.keep.cb(sim.CB_V, lambda _c: self.fire(r))
        return r

    # --- the oracle at each callback
    def fire(self, r):
        L = self.L
        r["gone"] = True                # its handle is no longer valid
        check(self.inrun, "a callback ran outside the event loop")
        check(self.failed is None, "a callback ran after one had returned %s", self.failed)
        check(not self.interrupted, "a callback ran after the loop was interrupted")
        check(r["state"] == "live", "%s callback ran although it had been %s", r["kind"], r["state"])
        now = self.us()
        prios = [p for p, q in self.imm.items() if q]
        if r["kind"] == "imm":
            p = min(prios)
            check(r["prio"] == p, "an immediate event of priority %d ran while one of priority %d was waiting", r["prio"], p)
            check(self.imm[p][0] is r, "immediate events of the same priority ran out of order")
            self.imm[p].pop(0)
        else:
            check(not prios, "a %s event ran while immediate events were waiting", r["kind"])
        if r["kind"] == "net":
            i, d = r["key"]
            check(self.net.get((i, d)) is r, "a network callback ran for a registration which is not current")
            # (What stopped being ready in this round may still run, unless it has not been ready at all since it was registered.)
            ok = self.ready(i, d) or (self.unready.get((i, d), -1) >= L.sim_npoll and r["ready"])
            check(ok, "a callback ran for %s on a socket which is not ready for it", ("reading", "writing")[d])
            del self.net[(i, d)]
        if r["kind"] == "tim":
            for key in self.net:
                check(not self.ready(*key), "a timer ran while a network event was ready to run")
            dl = r["deadline"]
            check(now >= dl - r["tol"], "a timer ran %d us early", dl - now)
            first = min(t["deadline"] - t["tol"] for t in self.tim)
            check(dl + r["tol"] >= first, "timers ran out of order: one due at %d us before one due %d us earlier", dl, dl - first)
            late = L.sim_now - max(self.busy, (dl + r["tol"]) * 1000)
            check(late <= 1000000 + 1000 + self.case["over"], "an idle loop ran a timer %d ns late", late)
            self.tim.remove(r)
        r["state"] = "already run"
        self.fire_kinds.add(r["kind"])
        self.ran += 1
        if self.ran > NREG:
            return 0
        for op in self.case["scripts"][r["script"]]:
            self.nested += 1
            self.op(op)
        self.busy = L.sim_now
        if r["rc"]:
            self.failed = r["rc"]
        return r["rc"]

    # --- operations (anywhere)
    def op(self, op):
        L, o = self.L, op[0]
        if o == "imm":
            r = self.mk("imm", op[2], op[3], prio=op[1])
            r["h"] = L.events_immediate_register(r["cb"], None, op[1])
            check(r["h"], "an immediate event could not be registered")
            self.imm.setdefault(op[1], []).append(r)
        elif o == "imm_cancel":
            live = [x for p in sorted(self.imm) for x in self.imm[p]]
            if live:
                r = live[op[1] % len(live)]
                L.events_immediate_cancel(r["h"])
                r["state"] = "cancelled"
                self.imm[r["prio"]].remove(r)
                self.cancelled += 1
        elif o in ("tim", "timd"):
            u = op[1] if o == "tim" else int(op[1] * 1000000)
            r = self.mk("tim", op[2], op[3], interval=u, tol=0 if o == "tim" else 2)
            r["deadline"] = self.us() + u
            if o == "tim":
                tv = sim.Timeval(u // 1000000, u % 1000000)
                r["h"] = L.events_timer_register(r["cb"], None, C.byref(tv))
            else:
                r["h"] = L.events_timer_register_double(r["cb"], None, op[1])
            check(r["h"], "a timer could not be registered")
            self.tim.append(r)
        elif o == "tim_cancel":
            if self.tim:
                r = self.tim.pop(op[1] % len(self.tim))
                L.events_timer_cancel(r["h"])
                r["state"] = "cancelled"
                self.cancelled += 1
        elif o == "tim_reset":
            if self.tim:
                r = self.tim[op[1] % len(self.tim)]
                check(L.events_timer_reset(r["h"]) == 0, "a timer could not be reset")
                r["deadline"] = self.us() + r["interval"]
                self.resets += 1
        elif o == "net":
            self.register(op[1] % len(self.eps), op[2], op[3], op[4])
        elif o == "netall":
            for i in range(len(self.eps)):
                self.register(i, op[1], op[2], 0)
        elif o == "netnone":
            for i in range(len(self.eps)):
                self.unregister(i, op[1])
        elif o == "net_cancel":
            self.unregister(op[1] % len(self.eps), op[2])
        elif o in ("feed", "drain", "block", "unblock", "err", "hup"):
            i = op[1] % len(self.eps)
            e = self.eps[i]
            if o == "feed":
                L.feed(e, b"x")
                self.fed[i] += 1
            elif o == "drain":
                self.change(i, lambda: L.sim_rx_drain(e))
            elif o == "block":
                self.change(i, lambda: L.sim_set_txcap(e, 0))
            elif o == "unblock":
                L.sim_set_txcap(e, 1 << 20)
            elif o == "err":
                L.sim_feed_err(e, 104, 0)
            else:
                L.sim_set_hup(e, 1)
        elif o == "rearm":              # given up, used up, and wanted again
            i, d = op[1] % len(self.eps), op[2]
            self.unregister(i, d)
            self.change(i, (lambda: L.sim_set_txcap(self.eps[i], 0)) if d else (lambda: L.sim_rx_drain(self.eps[i])))
            self.register(i, d, op[3], 0)
        elif o == "interrupt":
            L.events_interrupt()
            self.interrupted = True
        elif o == "adv":
            L.sim_now = L.sim_now + op[1]
        elif o == "done":
            self.done.value = 1
        elif o == "wall":
            L.sim_wallskew = op[1] * sim.SEC

    def register(self, i, d, script, rc):
        L = self.L
        r = self.mk("net", script, rc, key=(i, d))
        L.g_set_errno(0)
        res = L.events_network_register(r["cb"], None, self.fds[i], d)
        if (i, d) in self.net:
            check(res == -1, "a second registration for the same socket and direction was accepted")
        else:
            check(res == 0, "a network event could not be registered")
            self.net[(i, d)] = r
            r["ready"] = self.ready(i, d)

    def unregister(self, i, d):
        res = self.L.events_network_cancel(self.fds[i], d)
        r = self.net.pop((i, d), None)
        if r is None:
            check(res == -1, "cancelling a network event which is not registered succeeded")
        else:
            check(res == 0, "a registered network event could not be cancelled")
            r["state"] = "cancelled"
            self.cancelled += 1

    # --- running
    def runnable(self, idle=False):
        if any(self.imm.values()):
            return "an immediate event"
        for (i, d) in self.net:
            if self.ready(i, d):
                return "a network event"
        # The loop sleeps in whole milliseconds, so it may still be asleep.
        now = self.us() - ((2000 + self.case["over"] // 1000) if idle else 0)
        for t in self.tim:
            if t["deadline"] + t["tol"] <= now:
                return "an expired timer"
        return None

    def once(self, ns, spin=False):
        L = self.L
        ran0, could = self.ran, self.runnable()
        self.failed, self.inrun = None, True
        was_interrupted = self.interrupted
        self.busy = L.sim_now
        self.unready.clear()
        ignored = spin and (self.done.value or was_interrupted)
        res = L.sim_once(L.sim_now + ns, C.byref(self.done) if spin else None)
        self.inrun = False
        self.keep.reraise()
        check(not L.sim_livelock, "the event loop spins without running anything")
        if self.failed is not None:
            check(res == self.failed, "a callback returned %d but the loop returned %d", self.failed, res)
        else:
            check(res == 0, "the loop returned %d although every callback succeeded", res)
        stopped = self.failed is not None or self.interrupted
        if could and not was_interrupted and not ignored:
            check(self.ran > ran0, "%s could run but the loop returned without running anything", could)
        if spin and not stopped and not self.done.value and not ignored:
            check(L.sim_idle, "the loop stopped before the condition it was waiting for")
        if spin and L.sim_idle and not stopped:
            w = self.runnable(True)
            check(w is None, "%s was left waiting", w)
        self.interrupted = False        # consumed by the return
        return stopped

    def run(self, ns):
        L = self.L
        end = L.sim_now + ns
        for _ in range(3 * NREG):
            stopped = self.once(max(0, end - L.sim_now))
            if L.sim_idle and not stopped:
                w = self.runnable(True)
                check(w is None, "%s was left waiting although the loop is idle", w)
                return
            if stopped and self.ran > NREG:
                return
        raise Violation("the event loop does not become idle")

    def main(self):
        for op in self.case["main"]:
            if op[0] == "run":
                self.run(op[1])
            elif op[0] == "once":
                self.once(op[1])
            elif op[0] == "spin":
                self.done.value = 0
                self.once(op[1], True)
            else:
                if op[0] == "interrupt":
                    continue
                self.op(op)
        # Let everything which is ready run; callbacks no longer do anything.
        self.ran = max(self.ran, NREG + 1)
        for x in [y for q in self.imm.values() for y in q] + self.tim + list(self.net.values()):
            x["rc"] = 0
        self.run(0)
        left = len(self.tim)
        far = max([t["deadline"] for t in self.tim] + [0]) * 1000 - self.L.sim_now
        if left:
            self.run(max(0, far) + 5 * 10**9 + self.case["over"] * (2 + far // (2 * 10**15)))
            check(not self.tim, "%d timers never ran", len(self.tim))
        for (i, d) in list(self.net):
            self.unregister(i, d)
        p = self.L.problems()
        check(not p, "misuse of a descriptor: %s", p.strip())


def run(case, primary):
    lp = Loop(case)
    try:
        lp.main()
    finally:
        lp.inrun = True
        # Clean up for the next case (also after a violation found outside C code).
        L = lp.L
        for q in lp.imm.values():
            for r in q:
                if not r.get("gone"):
                    L.events_immediate_cancel(r["h"])
        for r in lp.tim:
            if not r.get("gone"):
                L.events_timer_cancel(r["h"])
        for (i, d) in list(lp.net):
            L.events_network_cancel(lp.fds[i], d)
    cl = sorted(lp.fire_kinds)
    if lp.cancelled:
        cl.append("cancel")
    if lp.nested:
        cl.append("nested")
    if lp.resets:
        cl.append("reset")
    if lp.L.sim_n_eintr:
        cl.append("eintr")
    return dict(nontrivial=primary in lp.fire_kinds and lp.ran >= 2, classes=cl)
