"""C32: running out of memory, or a failing system call, never does worse than end things cleanly."""
import ctypes as C
from hypothesis import strategies as st
from vf import core, disp, faultreal, gen, sim, world
from vf.core import Target, check


class Over(Exception):
    """The event loop gave up: the daemon would now exit."""


class W(disp.W):
    """The dispatcher's world in which one thing (or everything from then on) fails."""

    def __init__(self, L, case):
        self.outs = {}
        self.rc = 0
        self.armed = False
        self.A = None
        super().__init__(L, case)

    def conncb(self, what, x, sa, n):
        if what == 2:
            i = max([c.i for c in self.conns if self.L.sim_fd(c.ep) != -1 or self.L.sim_closed(c.ep)], default=None)
            check(i is not None and i not in self.outs, "a connection to the target which nobody asked for")
            self.outs[i] = x
        return super().conncb(what, x, sa, n)

    def arm(self):
        L, k = self.L, self.case["k"]
        self.armed = True
        if self.case["kind"] == "alloc":
            L.sim_alloc_fail_persist = int(self.case["persist"])
            L.sim_alloc_fail_at = k
        elif self.case["kind"] == "sys":
            L.sim_sys_fail_persist = int(self.case["persist"])
            L.sim_sys_fail_at = k
        else:
            L.sim_ent_fail_at = k

    def disarm(self):
        L = self.L
        L.sim_alloc_fail_at = L.sim_sys_fail_at = L.sim_ent_fail_at = -1
        L.sim_alloc_fail_persist = L.sim_sys_fail_persist = 0

    def hit(self):
        L = self.L
        if not self.armed:
            return False
        if self.case["kind"] == "ent":
            return L.sim_ent_fail_at == -1
        return bool(L.sim_alloc_failed if self.case["kind"] == "alloc" else L.sim_sys_failed)

    def start(self, sas):
        L = self.L
        L.sim_alloc_failed = 0
        if self.case["arm"] == 0:
            self.arm()
        try:
            super().start(sas)
        except core.Violation:
            check(self.hit(), "the dispatcher could not be started although nothing went wrong")
            # What spiped does then: the socket and the addresses are still its own.
            L.sock_addr_freelist(sas)
            getattr(L.cdll, "__wrap_close")(L.sim_fd(self.lis))
            raise Over()

    def refresh(self):
        L = self.L
        for c in self.conns:
            if not c.acc and (L.sim_fd(c.ep) != -1 or L.sim_closed(c.ep)):
                c.acc = True
                check(all(d.acc for d in self.conns[:c.i]), "a connection was accepted before one which arrived earlier")
        for c in self.conns:
            if c.acc and c.out is None and c.i in self.outs:
                c.out = self.outs[c.i]
                c.tacc = L.sim_t_create(c.out)
            if c.acc and c.out is None:
                check(self.hit(), "a connection was accepted but none to the target is tried")
        for c in self.conns:
            if c.acc and c.out is None:
                c.spoil()
                c.tacc = L.sim_now
        self.nacc = len([c for c in self.conns if c.acc])

    def run(self, ms=0):
        L = self.L
        rc = L.sim_run(L.sim_now + ms * disp.MS) if self.done.value == 0 else 0
        self.keep.reraise()
        check(not L.sim_livelock, "the event loop spins without making progress")
        check(rc in (0, -1), "the event loop returned %d", rc)
        if rc:
            check(self.hit(), "the event loop was stopped although nothing went wrong")
            self.rc = rc
        self.refresh()
        for c in self.conns:
            c.data_ok()
        for c in self.conns:
            c.pull()
        if rc:
            raise Over()
        if self.hit():
            for c in self.conns:
                if c.dead():
                    c.spoil()
        self.look()

    def look(self):
        if self.hit() and not self.shut and self.case["persist"]:
            # Who fails all the time need not serve anybody.
            self.maxactive = max(self.maxactive, len(self.active()))
            check(len(self.active()) <= self.limit, "more connections are open at once than the limit")
            return
        super().look()


def scenario(case, L):
    sim.fresh_sim(L, case["io"], case["misc"], case["seed"])
    w = W.__new__(W)
    over = False
    stage = "setup"
    try:
        w.__init__(L, case)
        steps = [("arrive", case["pre"])] + [("up", i) for i in range(case["preup"])] + [tuple(o) for o in case["ops"]]
        for i, op in enumerate(steps):
            stage = op[0]
            if i + 1 == case["arm"]:
                w.arm()
            w.step(op)
        stage = "deliver"
        w.deliver_all()
        hit = w.hit()
        w.disarm()
        # Whoever is still there works; and the daemon goes on serving.
        w.hit = lambda: hit
        w.deliver_all()
        if w.case["persist"] is False or not hit:
            n = len(w.conns)
            w.step(("arrive", 1))
            w.run(5000)
            for c in list(w.active())[:-1]:
                w.bringup(c)
            w.bringup(w.conns[n] if w.conns[n].acc else None)
            w.deliver_all()
            if len(w.active()) < w.limit:
                check(w.conns[n].acc, "after the failure, a new connection is not accepted")
    except Over:
        over = True
        hit = w.hit()
    w.disarm()
    if w.A:
        a, w.A = w.A, None
        L.dispatch_shutdown(a)
    L.sim_set_conncb(C.cast(None, sim.CB_CONN))
    w.keep.reraise()
    p = L.problems()
    check(not p, "misuse of a descriptor: %s", p.strip())
    check(L.sim_nopen() == 0, "%d descriptors are still open after the dispatcher was shut down", L.sim_nopen())
    name = (L.sim_sys_name() or b"").decode() if case["kind"] == "sys" else case["kind"]
    return dict(nontrivial=hit, classes=["hit-%s-%s" % (name, "exit" if over else "goes-on")] if hit else ["not-hit"])


def run(case):
    L = sim.load()
    world.secret(L, disp.KEY)
    if case["limit"] is None:
        case = dict(case, limit=disp.SIZE_MAX)
    return core.forked(lambda: scenario(case, L))


def strat(tier):
    base = disp.strategy("isolation", tier)
    return st.tuples(base, st.fixed_dictionaries(dict(
        arm=st.integers(0, 12), k=st.one_of(st.integers(0, 8), st.integers(0, 60)), kind=st.sampled_from(["alloc", "alloc", "alloc", "sys", "sys", "ent"]),
        persist=st.sampled_from([False, False, False, True])))).map(lambda t: dict(t[0], **t[1]))


def enum(tier):
    """One plain history, failing at every single point."""
    out = []
    ops = [["arrive", 1], ["up", 2], ["data", 0, "plain", 3000], ["data", 0, "wire", 3000], ["conn", 3, 111], ["eof", 0, "plain"], ["eof", 0, "wire"], ["adv", 1001], ["arrive", 1]]
    for role in ("client", "server"):
        for kind, n in (("alloc", 70), ("sys", 90), ("ent", 5)):
            for k in range(n):
                out.append(dict(role=role, io=[], misc=[], seed=1, limit=100, pre=2, preup=2, ops=ops, arm=0, k=k, kind=kind, persist=False))
    return out


BINS = ("fault", "plain")
TARGETS = [Target("daemon", strat, run, "the failure happened", quick=(8, 180, 18), thorough=(8, 4000, 300), enum=enum, case_timeout=40),
           Target("spipe", faultreal.strat("spipe"), faultreal.spipe_run, "the failure happened", quick=(5, 10, 16), thorough=(8, 2000, 200), lib=None, enum=faultreal.enum("spipe"), case_timeout=90),
           Target("spiped", faultreal.strat("spiped"), faultreal.spiped_run, "the failure happened", quick=(5, 10, 16), thorough=(8, 2000, 200), lib=None, enum=faultreal.enum("spiped"), case_timeout=90)]
ASSUMPTIONS = ["a system call fails with an error POSIX lists for it; close(2) never fails"]
