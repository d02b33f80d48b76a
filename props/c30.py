"""C30: starting as a daemon: what the starter's exit status and the pid file promise."""
import ctypes, os, random, signal, socket, subprocess, time
from hypothesis import strategies as st
from vf import procs
from vf.core import Target, Violation, check

WAIT = 30
HOSTS = ("src.test", "tgt.test", "bnd.test")
# Where each failure happens.
EARLY = ("nokey", "shortperm", "inuse", "listen", "unresolved")
DAEMONIZE = ("pipe", "fork", "setsid", "diesetsid", "fopenw", "diefopenw", "fclose", "nodir", "isdir", "full")


def strat(tier):
    return st.fixed_dictionaries(dict(
        mode=st.sampled_from(["plain", "plain", "D", "F", "DF"]), role=st.sampled_from("de"),
        src=st.sampled_from(["unix", "tcp", "name"]), tgt=st.sampled_from(["tcp", "name"]), bind=st.sampled_from([None, None, "tcp", "name"]),
        pid=st.sampled_from(["default", "abs", "rel"]), old=st.sampled_from([None, None, b"1".hex(), b"99999999999999999\nold\n".hex()]),
        late=st.sets(st.sampled_from(HOSTS), max_size=3).map(sorted),
        fault=st.one_of(st.just(None), st.just(None), st.sampled_from(EARLY + DAEMONIZE)),
        slow=st.sampled_from([None, "setsid=80", "fopenw=80", "fclose=80", "getaddrinfo=40"])))


def enum(tier):
    """Every kind of failure in every way of starting, the rest arbitrary."""
    seed = os.environ.get("VERIF_SEED", "1")
    for k in range(1 if tier == "quick" else 8):
        r = random.Random("%s-%d" % (seed, k))
        cases = []
        for mode in ("plain", "D", "F", "DF"):
            for fault in (None,) + EARLY + DAEMONIZE:
                if "F" in mode and fault in DAEMONIZE:
                    continue
                cases.append(dict(mode=mode, role=r.choice("de"), src=r.choice(["unix", "tcp", "name"]), tgt=r.choice(["tcp", "name"]), bind=r.choice([None, "tcp", "name"]),
                                  pid=r.choice(["default", "abs", "rel"]), old=r.choice([None, b"1".hex(), b"99999999999999999\nold\n".hex()]),
                                  late=[h for h in HOSTS if r.random() < (0.6 if fault == "unresolved" else 0.2 if "D" in mode else 0)], fault=fault,
                                  slow=r.choice([None, None, "setsid=80", "fopenw=80", "fclose=80", "getaddrinfo=40"])))
        r.shuffle(cases)
        yield from cases


def subreaper():
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)


def children():
    out = []
    me = os.getpid()
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    x = f.read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(x[1]) == me and x[0] != "Z":
                out.append(int(d))
    return out


def reap(but=()):
    """Collect dead children which nobody waits for."""
    got = {}
    for d in os.listdir("/proc"):
        if d.isdigit() and int(d) not in but:
            try:
                with open("/proc/%s/stat" % d) as f:
                    x = f.read().rsplit(")", 1)[1].split()
                if int(x[1]) == os.getpid() and x[0] == "Z":
                    p, s = os.waitpid(int(d), os.WNOHANG)
                    if p:
                        got[p] = s
            except OSError:
                continue
    return got


def killall(keep=()):
    for p in children():
        if p not in keep:
            try:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            except OSError:
                pass


def run(case):
    subreaper()
    before = set(children())
    try:
        with procs.Scratch() as sc:
            try:
                return drive(case, sc, before)
            except OSError as e:
                raise Violation("the exchange failed: %r; %s" % (e, [sc.err(p) for p in sc.procs]))
    finally:
        killall(before)
        reap(before)


def ended(p, sc):
    try:
        return p.wait(12)
    except subprocess.TimeoutExpired:
        raise Violation("spiped does not end: %s" % sc.err(p))


def drive(case, sc, before):
    mode, role, fault = case["mode"], case["role"], case["fault"]
    D, F = "D" in mode, "F" in mode
    back = socket.socket()
    sc.socks.append(back)
    back.bind(("127.0.0.1", 0))
    back.listen(16)
    bport = back.getsockname()[1]
    used = []
    if case["src"] == "unix":
        src = sc.path("s")
    else:
        port = procs.free_port()
        src = "[127.0.0.1]:%d" % port if case["src"] == "tcp" else "src.test:%d" % port
        if case["src"] == "name":
            used.append("src.test")
    tgt = "[127.0.0.1]:%d" % bport if case["tgt"] == "tcp" else "tgt.test:%d" % bport
    if case["tgt"] == "name":
        used.append("tgt.test")
    hosts = {h: "127.0.0.1" for h in HOSTS}
    argv = [procs.binpath("spiped"), "-" + role, "-s", src, "-t", tgt, "-k", sc.path("key")]
    if D:
        argv.append("-D")
    if F:
        argv.append("-F")
    if case["bind"]:
        argv += ["-b", "[127.0.0.2]:0" if case["bind"] == "tcp" else "bnd.test:0"]
        if case["bind"] == "name":
            used.append("bnd.test")
            hosts["bnd.test"] = "127.0.0.2"
    late = [h for h in case["late"] if h in used]
    if fault == "unresolved" and not late:
        fault = None
    if not D and late:
        fault = "unresolved"
    # Faults of daemonizing cannot happen in the foreground.
    if F and fault in DAEMONIZE:
        fault = None
    env = {"VF_HOSTS": sc.path("hosts")}
    if fault != "nokey":
        sc.write("key", b"some key" * 4)
    blocker = None
    if fault == "shortperm":
        # A key which cannot be read: a directory.
        os.unlink(sc.path("key"))
        os.mkdir(sc.path("key"))
    if fault == "inuse":
        if case["src"] == "unix":
            blocker = socket.socket(socket.AF_UNIX)
            blocker.bind(src)
        else:
            blocker = socket.socket()
            blocker.bind(("127.0.0.1", port))
        blocker.listen(5)
        sc.socks.append(blocker)
    pid = {"default": (src if src.startswith("/") else sc.path(src)) + ".pid", "abs": sc.path("my.pid"), "rel": sc.path("sub/rel.pid")}[case["pid"]]
    os.mkdir(sc.path("sub"))
    old = bytes.fromhex(case["old"]) if case["old"] else None
    if fault in ("nodir", "isdir", "full"):
        old = None
        if fault == "nodir":
            pid = sc.path("none/x.pid")
        elif fault == "isdir":
            os.mkdir(pid) if case["pid"] != "default" else None
            pid = sc.path("sub") if case["pid"] == "default" else pid
        else:
            pid = "/dev/full"
        argv += ["-p", pid]
    elif case["pid"] != "default":
        argv += ["-p", pid if case["pid"] == "abs" else "sub/rel.pid"]
    if old is not None:
        with open(pid, "wb") as f:
            f.write(old)
    errno = {"pipe": 24, "fork": 11, "setsid": 1, "fopenw": 13, "fclose": 28, "listen": 98}
    if fault in errno:
        env["VF_FAIL"] = "%s=%d" % (fault, errno[fault])
    if fault in ("diesetsid", "diefopenw"):
        env["VF_DIE"] = fault[3:] + "=1"
    if case["slow"]:
        env["VF_DELAY"] = case["slow"]

    def sethosts(without):
        with open(sc.path("hosts.new"), "w") as f:
            for h in HOSTS:
                if h not in without:
                    f.write("%s %s\n" % (h, hosts[h]))
        os.rename(sc.path("hosts.new"), sc.path("hosts"))
    sethosts(late)

    def pidnow():
        try:
            with open(pid, "rb") as f:
                return f.read()
        except OSError:
            return None
    unchanged = pidnow() if fault != "full" else None

    def extra():
        return [p for p in children() if p not in before and p != starter.pid]
    starter = sc.spawn(argv, preload=env)
    cls = [mode, "fault-%s" % fault, "late%d" % len(late), "pid-" + case["pid"]] + (["slow"] if case["slow"] else [])
    early = fault if fault in EARLY else None
    # --- which way it has to go ---
    if fault in DAEMONIZE or (early and not D) or (F and early and early != "unresolved"):
        # (Names which cannot be looked up yet are waited for.)
        if D and F and late:
            time.sleep(0.05)
            sethosts([])
        st_ = ended(starter, sc)
        check(st_ == 1, "starting must fail (%s) but the exit status is %s; %s", fault, st_, sc.err(starter))
        end = time.monotonic() + 5
        while extra() and time.monotonic() < end:
            time.sleep(0.005)
        check(not extra(), "starting failed (%s, status 1) but a daemon keeps running", fault)
        check(sc.err(starter) != "", "starting failed without a message")
        if early:
            check(pidnow() == unchanged, "a failed start (%s) changed the pid file from %r to %r", fault, unchanged, pidnow())
        if blocker is not None:
            c = socket.socket(blocker.family)
            c.connect(src if case["src"] == "unix" else ("127.0.0.1", port))
            c.close()
        return dict(nontrivial=True, classes=cls)
    if F:
        procs.wait_for(lambda: starter.poll() is not None or late or listening(src), WAIT, "spiped -F to listen")
        check(starter.poll() is None, "spiped -F exited with status %s: %s", starter.returncode, sc.err(starter))
        check(not extra(), "spiped -F created another process")
        check(os.getsid(starter.pid) == starter.pid, "spiped -F left its session")
        check(pidnow() == unchanged, "spiped -F wrote a pid file: %r", pidnow())
        daemon = starter.pid
    else:
        st_ = ended(starter, sc)
        text = pidnow()
        kids = extra()
        up = listening(src) if not D else None
        check(st_ == 0, "starting failed with status %s: %s", st_, sc.err(starter))
        gone = {}
        if not kids:
            gone = reap(before | {starter.pid})
        check(D and early or len(kids) == 1, "starting reported success, and %d daemons are running (%s): %s", len(kids), gone, sc.err(starter))
        check(text is not None, "starting reported success, and there is no pid file")
        if not kids:
            check([text] == [b"%d" % p for p in gone], "the pid file says %r; the daemon was %s", text, list(gone))
        else:
            daemon = kids[0]
            check(text == b"%d" % daemon, "starting reported success; the pid file says %r and the daemon is %d", text, daemon)
            sid, pg = os.getsid(daemon), os.getpgid(daemon)
            check(sid == daemon and pg == daemon, "the daemon %d is in session %d and process group %d", daemon, sid, pg)
            if not D:
                check(up, "starting reported success and the daemon is not listening")
    if D and early and early != "unresolved":
        # It finds out once the names are known.
        if late:
            time.sleep(0.05)
            sethosts([])
        procs.wait_for(lambda: not extra(), WAIT, "the daemon to end (%s)" % fault)
        return dict(nontrivial=True, classes=cls + ["later-" + early])
    if late:
        time.sleep(0.05)
        reap(before | {starter.pid})
        check(daemon in children(), "the daemon ended while waiting for a name: %s", sc.err(starter))
        # One name at a time.
        for i in range(len(late)):
            sethosts(late[i + 1:])
        procs.wait_for(lambda: daemon not in children() or listening(src), WAIT, "the daemon to listen after the names became known")
    elif D and not F:
        procs.wait_for(lambda: daemon not in children() or listening(src), WAIT, "the daemon to listen")
    # It does its work.
    c = socket.socket(socket.AF_UNIX if case["src"] == "unix" else socket.AF_INET)
    sc.socks.append(c)
    c.settimeout(WAIT)
    c.connect(src if case["src"] == "unix" else ("127.0.0.1", port))
    back.settimeout(WAIT)
    b, peer = back.accept()
    sc.socks.append(b)
    b.settimeout(WAIT)
    if case["bind"]:
        check(peer[0] == "127.0.0.2", "the connection to the target comes from %s", peer[0])
    w, o = (c, b) if role == "d" else (b, c)
    got = b""
    while len(got) < 32:
        x = w.recv(32 - len(got))
        check(x, "the daemon closed a connection")
        got += x
    if not F:
        check(pidnow() == b"%d" % daemon, "the pid file changed to %r", pidnow())
    # The pid in the file is the one to stop.
    os.kill(daemon, signal.SIGTERM)
    c.close()
    b.close()
    if F:
        st_ = ended(starter, sc)
    else:
        procs.wait_for(lambda: daemon not in children(), WAIT, "the daemon to end")
        st_ = os.waitstatus_to_exitcode(reap(before | {starter.pid}).get(daemon, 0))
    check(st_ == 0, "after SIGTERM and the end of the connections spiped ended with status %s", st_)
    return dict(nontrivial=True, classes=cls + ["served"])


def listening(src):
    if src.startswith("/"):
        with open("/proc/net/unix") as f:
            return any(l.rstrip().endswith(" " + src) and " 00010000 " in l for l in f)
    hexp = ":%04X " % int(src.rsplit(":", 1)[1])
    with open("/proc/net/tcp") as f:
        return any(hexp in l and " 0A " in l for l in f)


BINS = ("plain", "preload")
TARGETS = [Target("start", strat, run, "every case", quick=(8, 30, 20), thorough=(8, 3000, 300), lib=None, case_timeout=150, enum=enum)]
