"""C31: with -u, connections are served under that user and group only, or not at all."""
import ctypes as C, os, random, shutil, socket, tempfile, time
from hypothesis import strategies as st
from props.c30 import children, ended, killall, listening, reap, subreaper
from vf import build, procs, sim
from vf.core import Target, Violation, check

WAIT = 30
IGNORE, WARN, ERROR = 0, 1, 2
EPERM, EINVAL, EIO, ENOMEM, EAGAIN = 1, 22, 5, 12, 11
P = dict(setgroups=1, setgid=2, setuid=3, setegid=4, seteuid=5, setregid=6, setreuid=7, setresgid=8, setresuid=9, initgroups=10, getgroups=11, getpwnam=12, getgrnam=13)
# What changes a user ID, what changes a group ID.
FAULTS = {"setgroups": ("setgroups", "initgroups"), "gid": ("setgid", "setegid", "setregid", "setresgid"), "uid": ("setuid", "seteuid", "setreuid", "setresuid"),
          "getgroups": ("getgroups",), "getpwnam": ("getpwnam",), "getgrnam": ("getgrnam",)}
USERS = {"alice": 1000, "bob": 2000, "root": 0, "77": 1077, "0": 1078, "gonly": None, "odd name": 3000, "x.y-z": 4294967294}
GROUPS = {"alice": 5000, "staff": 50, "wheel": 0, "77": 5077, "a:b": 5100, "0": 5078, "root": 0, "big": 4294967294}
BAD = ["nobody-here", "1x", "x1", "-1", "4294967296", "99999999999999999999", "1 2", "1.5", "--", "!", "4294967295"]


def strat(tier):
    name = lambda names: st.one_of(st.sampled_from(names), st.sampled_from(names), st.integers(1, 4294967294).map(str), st.sampled_from(["0", "1", "77", "1000"]), st.sampled_from(BAD))
    u = st.one_of(name(list(USERS)), st.just(""))
    g = st.one_of(st.none(), name(list(GROUPS)), name(list(GROUPS)), st.just(""), st.just(":"), st.just("staff:"))
    return st.fixed_dictionaries(dict(user=u, group=g, leave=st.sampled_from([IGNORE, WARN, WARN, WARN, ERROR]), uid=st.sampled_from([0, 0, 0, 0, 1000, 1000]), gid=st.sampled_from([0, 50, 1000]),
                                      groups=st.lists(st.sampled_from([0, 4, 24, 50, 1000]), max_size=3), noop=st.sampled_from([0, 0, 0, 1]),
                                      fault=st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(sorted(FAULTS)), st.sampled_from([EPERM, EINVAL, EIO, ENOMEM, EAGAIN]))), errno=st.sampled_from([0, 2, 1])))


def numeric(s):
    if s and all(c in "0123456789" for c in s) and (s == "0" or s[0] != "0") and int(s) < 2**32:
        return int(s)
    return None


def model(case):
    """(success, uids, gids, groups): what has to happen."""
    user, group = case["user"], case["group"]
    if ":" in user:
        raise AssertionError
    fault, ferr = case["fault"] or (None, 0)
    uids, gids, groups = case["uid"], case["gid"], list(case["groups"])
    fail = (False, None, None, None)
    if group == "" or (group is None and user == ""):
        return fail
    if case["leave"] != IGNORE:
        e = ferr if fault == "setgroups" else EPERM if uids != 0 else 0
        if e == 0 and not case["noop"]:
            groups = []
        if e not in (0, EPERM) or (e and case["leave"] == ERROR):
            return fail
        left = fault != "getgroups" and (groups == [] or groups == [gids])
        if not left and case["leave"] == ERROR:
            return fail
    if group is not None:
        if fault == "getgrnam":
            return fail
        n = GROUPS.get(group)
        if n is None:
            n = numeric(group)
        if n is None or n == 2**32 - 1 or fault == "gid" or (uids != 0 and n != gids):
            return fail
        gids = n
    if user:
        if fault == "getpwnam":
            return fail
        n = USERS.get(user)
        if n is None:
            n = numeric(user)
        if n is None or n == 2**32 - 1 or fault == "uid" or (uids != 0 and n != uids):
            return fail
        uids = n
    return True, uids, gids, groups


def run(case):
    L = sim.load()
    L.sim_priv_reset(case["uid"], case["gid"])
    for g in case["groups"]:
        L.sim_priv_group(g)
    for n, i in USERS.items():
        if i is not None:
            L.sim_priv_name(0, n.encode(), i)
    for n, i in GROUPS.items():
        L.sim_priv_name(1, n.encode(), i)
    if case["fault"]:
        for k in FAULTS[case["fault"][0]]:
            L.sim_priv_err(P[k], case["fault"][1], 0)
    L.sim_priv_setgroups_noop = case["noop"]
    spec = case["user"] + ("" if case["group"] is None else ":" + case["group"])
    L.sim_priv_on = 1
    L.g_set_errno(case["errno"])
    try:
        rc = L.setuidgid(spec.encode(), case["leave"])
    finally:
        L.sim_priv_on = 0
    o = (C.c_uint32 * 80)()
    n = L.sim_priv_state(o)
    uids, gids, groups = list(o[:3]), list(o[3:6]), list(o[6:6 + n])
    ok, u, g, gr = model(case)
    what = "-u '%s'" % spec
    check(rc in (0, -1), "%s: returned %d", what, rc)
    if not ok:
        check(rc == -1, "%s reports success but has to fail; user IDs %s, group IDs %s, groups %s", what, uids, gids, groups)
    else:
        check(rc == 0, "%s fails but has to succeed", what)
        check(uids == [u] * 3, "%s: the user IDs are %s instead of %d", what, uids, u)
        check(gids == [g] * 3, "%s: the group IDs are %s instead of %d", what, gids, g)
        check(sorted(groups) == sorted(gr), "%s: the supplementary groups are %s instead of %s", what, groups, gr)
    return dict(nontrivial=True, classes=["ok" if ok else "refused", "fault-%s" % (case["fault"] or [None])[0], "uid%d" % case["uid"]])


# --- the real daemon ------------------------------------------------------------
RU = ["nobody", "daemon", "bin", "65534", "12345", "root", "0", "nosuchuser", "12345x", "-1", "4294967296", ""]
RG = [None, None, "nogroup", "daemon", "bin", "65534", "54321", "nosuchgroup", "", "5x", "root"]


def rstrat(tier):
    return st.fixed_dictionaries(dict(user=st.sampled_from(RU), group=st.sampled_from(RG), role=st.sampled_from("de"), fg=st.booleans(), D=st.sampled_from([False, False, True]), start=st.sampled_from(["root", "root", "root", "nobody"]),
                                      groups=st.sampled_from([[], [4], [4, 24, 65534]]), fault=st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["setuid", "setgid", "setgroups"]), st.sampled_from([EPERM, EINVAL, EAGAIN]))),
                                      slow=st.sampled_from(["", "setuid=60", "setgid=60", "setgroups=60"]), unix=st.booleans()))


def renum(tier):
    """Every kind of failure for every kind of name, the rest arbitrary."""
    seed = os.environ.get("VERIF_SEED", "1")
    for k in range(1 if tier == "quick" else 20):
        r = random.Random("%s-%d" % (seed, k))
        cases = []
        for fault in (None, "setuid", "setgid", "setgroups"):
            for fg in (False, True):
                for start in ("root", "nobody"):
                    for user in ("nobody", "daemon", "12345", ""):
                        cases.append(dict(user=user, group=r.choice(RG if user else RG[2:]), role=r.choice("de"), fg=fg, D=r.choice([False, False, True]), start=start, groups=r.choice([[], [4], [4, 24, 65534]]),
                                          fault=fault and [fault, r.choice([EPERM, EINVAL, EAGAIN])], slow=r.choice(["", "setuid=60", "setgid=60", "setgroups=60"]), unix=r.choice([False, True])))
        for user in RU:
            cases.append(dict(cases[0], user=user, group=None, start="root", fault=None, fg=r.choice([False, True])))
        for group in RG[1:]:
            cases.append(dict(cases[0], group=group, user=r.choice(["nobody", ""]), start="root", fault=None, fg=r.choice([False, True])))
        r.shuffle(cases)
        yield from cases


def ids(pid):
    out = {}
    with open("/proc/%d/status" % pid) as f:
        for l in f:
            k, _, v = l.partition(":")
            if k in ("Uid", "Gid", "Groups"):
                out[k] = [int(x) for x in v.split()]
    return out["Uid"], out["Gid"], out["Groups"]


def lookup(name, file):
    with open(file) as f:
        for l in f:
            x = l.rstrip("\n").split(":")
            if x[0] == name:
                return int(x[2])
    return numeric(name)


_can = None


def can():
    """May this process change its IDs at all?"""
    global _can
    if _can is None:
        p = os.fork()
        if p == 0:
            try:
                os.setgroups([4])
                os.setgid(4)
                os.setuid(1)
                os._exit(0)
            except OSError:
                os._exit(1)
        _can = os.waitpid(p, 0)[1] == 0
    return _can


def rrun(case):
    if not can():
        return dict(nontrivial=False, classes=["not permitted"])
    subreaper()
    before = set(children())
    try:
        with procs.Scratch() as sc:
            os.chmod(sc.dir, 0o755)
            try:
                return drive(case, sc, before)
            except OSError as e:
                raise Violation("the exchange failed: %r; %s" % (e, [sc.err(p) for p in sc.procs]))
    finally:
        killall(before)
        reap(before)


def drive(case, sc, before):
    role, user, group = case["role"], case["user"], case["group"]
    spec = user + ("" if group is None else ":" + group)
    fault, ferr = case["fault"] or (None, 0)
    start = case["start"]
    sc.write("key", b"some key" * 4)
    os.chmod(sc.path("key"), 0o600 if start == "root" else 0o644)
    d = sc.path("d")
    os.mkdir(d)
    os.chmod(d, 0o777 if start != "root" else 0o700)
    # What has to happen.
    uid, gid = (0, 0) if start == "root" else (65534, 65534)
    groups = sorted(set(case["groups"]))
    ok = not (group == "" or (group is None and user == ""))
    u1, g1, gr1 = uid, gid, groups
    if ok:
        e = ferr if fault == "setgroups" else EPERM if uid else 0
        if e not in (0, EPERM):
            ok = False
        gr1 = groups if e else []
        if group is not None:
            g1 = lookup(group, "/etc/group")
            ok = ok and g1 is not None and fault != "setgid" and (uid == 0 or g1 == gid)
        if user:
            u1 = lookup(user, "/etc/passwd")
            ok = ok and u1 is not None and fault != "setuid" and (uid == 0 or u1 == uid)
    back = socket.socket()
    sc.socks.append(back)
    back.bind(("127.0.0.1", 0))
    back.listen(16)
    port = procs.free_port()
    src = os.path.join(d, "s") if case["unix"] else "[127.0.0.1]:%d" % port
    exe = procs.binpath("spiped")
    if start != "root":
        # Where that user can reach it.
        exe, lib = sc.path("spiped"), sc.path("libpreload.so")
        shutil.copy(procs.binpath("spiped"), exe)
        shutil.copy(build.preload(), lib)
        x = sc.dir
        while x.startswith(tempfile.gettempdir() + "/"):
            os.chmod(x, 0o755)
            x = os.path.dirname(x)
    argv = [exe, "-" + role, "-s", src, "-t", "[127.0.0.1]:%d" % back.getsockname()[1], "-k", sc.path("key"), "-p", os.path.join(d, "pid"), "-u", spec]
    if case["fg"]:
        argv.append("-F")
    if case["D"]:
        argv.append("-D")
    env = {} if start == "root" else {"LD_PRELOAD": lib}
    if fault:
        env["VF_FAIL"] = "%s=%d" % (fault, ferr)
    if case["slow"]:
        env["VF_DELAY"] = case["slow"]

    def pre():
        procs.die_with_parent()
        os.setgroups(groups)
        if start != "root":
            os.setresgid(gid, gid, gid)
            os.setresuid(uid, uid, uid)
    p = sc.spawn(argv, preload=env, preexec_fn=pre)

    def running():
        return p.poll() is None or any(x not in before for x in children())
    fam = socket.AF_UNIX if case["unix"] else socket.AF_INET
    # As soon as somebody listens, connect.
    end = time.monotonic() + WAIT
    c = None
    while c is None and time.monotonic() < end and running():
        if not listening(src):
            time.sleep(0.001)
            continue
        c = socket.socket(fam)
        sc.socks.append(c)
        c.settimeout(WAIT)
        try:
            c.connect(src if case["unix"] else ("127.0.0.1", port))
        except OSError:
            c = None
            break
    w = c
    got = b""
    if c is not None:
        if role == "e":
            back.settimeout(0.05)
            w = None
            while w is None and time.monotonic() < end:
                alive = running()
                try:
                    w, _ = back.accept()
                    sc.socks.append(w)
                    w.settimeout(WAIT)
                except (socket.timeout, TimeoutError):
                    if not alive:
                        break
        if w is not None:
            try:
                got = w.recv(32)
            except ConnectionResetError:
                pass
    if case["fg"]:
        daemon = p.pid
    else:
        x = ended(p, sc)
        check(x == 0, "starting failed with status %s: %s", x, sc.err(p))
        kids = [x for x in children() if x not in before]
        daemon = kids[0] if kids else None
    if not ok:
        if w is not None and (got or role == "e"):
            check(False, "-u '%s' (%s) cannot be obeyed but a connection is served; IDs: %s", spec, case["fault"], ids(daemon) if daemon else None)
        procs.wait_for(lambda: not running(), WAIT, "spiped to end (-u '%s' cannot be obeyed)" % spec)
        if case["fg"]:
            check(p.returncode == 1, "-u '%s' cannot be obeyed: spiped ends with status %s instead of 1: %s", spec, p.returncode, sc.err(p))
        else:
            s = [os.waitstatus_to_exitcode(v) for v in reap(before).values()]
            check(s in ([], [1]), "-u '%s' cannot be obeyed: spiped ends with status %s instead of 1: %s", spec, s, sc.err(p))
        check(sc.err(p), "-u '%s' is refused without a message", spec)
        return dict(nontrivial=True, classes=["refused", start, "fault-%s" % fault])
    check(len(got) > 0, "-u '%s': the connection is not served: %s", spec, sc.err(p))
    check(daemon is not None and running(), "-u '%s': the daemon ended: %s", spec, sc.err(p))
    U, G, S = ids(daemon)
    check(U == [u1] * 4, "with -u '%s' a connection is served under the user IDs %s instead of %d", spec, U, u1)
    check(G == [g1] * 4, "with -u '%s' a connection is served under the group IDs %s instead of %d", spec, G, g1)
    check(sorted(S) == sorted(gr1), "with -u '%s' a connection is served with the supplementary groups %s instead of %s", spec, S, gr1)
    return dict(nontrivial=(u1, g1) != (uid, gid) or gr1 != groups, classes=["served", start, "fault-%s" % fault])


BINS = ("plain", "preload")
TARGETS = [Target("setuidgid", strat, run, "every case", quick=(2, 4000, 8), thorough=(4, 400000, 200)),
           Target("real", rstrat, rrun, "the IDs change, or have to and cannot", quick=(6, 120, 14), thorough=(8, 6000, 300), lib=None, case_timeout=120, enum=renum)]
