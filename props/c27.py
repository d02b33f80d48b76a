"""C27: command lines: what is accepted, what is refused, and what each option does."""
import ctypes as C, math, os, re, select, signal, socket, struct, subprocess, time
from hypothesis import strategies as st
from vf import gen, procs, ref, sim, world
from vf.core import Target, Violation, check
from props.c26 import FLT

# --- getopt.h -----------------------------------------------------------------
OPTS = {"-a": (1, 0), "-b": (2, 0), "-c": (3, 1), "-x": (4, 1), "--foo": (5, 0), "--foobar": (6, 0), "--bar": (7, 1), "--b": (8, 1)}


class Ev(C.Structure):
    _fields_ = [("code", C.c_int), ("ch", C.c_char * 64), ("arg", C.c_char * 256), ("hasarg", C.c_int)]


def model(opts, argv, missing=True):
    """-> events [(code, option, argument)], index of the first argument left over"""
    ev, i = [], 1
    while i < len(argv):
        a = argv[i]
        if a == "--":
            return ev, i + 1
        if len(a) < 2 or a[0] != "-":
            return ev, i
        i += 1
        if a[1] == "-":
            name, eq, val = a.partition("=")
            if name not in opts or opts[name][1] == 0 and eq:
                ev.append((101, None, None))
            elif opts[name][1] == 0:
                ev.append((opts[name][0], name, None))
            elif eq:
                ev.append((opts[name][0], name, val))
            elif i < len(argv):
                ev.append((opts[name][0], name, argv[i]))
                i += 1
            else:
                ev.append((100 if missing else 101, name, None))
            continue
        k = 1
        while k < len(a):
            name = "-" + a[k]
            k += 1
            if name not in opts:
                ev.append((101, None, None))
            elif opts[name][1] == 0:
                ev.append((opts[name][0], name, None))
            else:
                if k < len(a):
                    ev.append((opts[name][0], name, a[k:]))
                elif i < len(argv):
                    ev.append((opts[name][0], name, argv[i]))
                    i += 1
                else:
                    ev.append((100 if missing else 101, name, None))
                break
    return ev, i


word = st.one_of(st.sampled_from(["-", "--", "", "-a", "-b", "-c", "-x", "--foo", "--foobar", "--bar", "--b", "--ba", "--fooba", "--foob", "-ab", "-ac", "-cfoo", "-abxval", "--bar=", "--bar=v", "--bar==", "--foo=1", "--b=q", "--foobar=", "-c-", "-c=", "-a-b", "-=", "file", "-z", "-azb", "---", "--=", "---foo", "-xc"]),
                 st.text("-abcxz=fo", max_size=9))


def gstrat(tier):
    return st.fixed_dictionaries(dict(argv=st.lists(word, max_size=7), form=st.integers(0, 1)))


def grun(case):
    L = sim.load()
    argv = ["prog"] + case["argv"]
    bs = [a.encode("latin-1") for a in argv]
    arr = (C.c_char_p * (len(bs) + 1))(*bs, None)
    ev = (Ev * 80)()
    end = C.c_int(-1)
    fn = L.cdll["g_getopt_missing" if case["form"] else "g_getopt_plain"]
    n = fn(len(bs), arr, ev, 80, C.byref(end))
    want, wend = model(OPTS, argv, bool(case["form"]))
    got = []
    for e in ev[:n]:
        got.append((e.code, e.ch.decode("latin-1"), e.arg.decode("latin-1") if e.hasarg else None))
    for g, w in zip(got, want):
        check(g[0] == w[0], "option %d of %r: %r instead of %r", got.index(g), argv, g, w)
        if w[0] < 100:
            check(g[1] == w[1] and g[2] == w[2], "option %d of %r: %r instead of %r", got.index(g), argv, g, w)
        elif w[0] == 100:
            check(g[1] == w[1], "an argument is said to be missing for %r instead of %r in %r", g[1], w[1], argv)
    check(len(got) == len(want), "%d options found in %r instead of %d", len(got), argv, len(want))
    check(end.value == wend, "arguments left over from %r start at %d instead of %d", argv, end.value, wend)
    check([arr[i] for i in range(len(bs))] == bs, "the argument vector was changed")
    return dict(nontrivial=len(want) > 0, classes=["missing" if any(w[0] == 100 for w in want) else "unknown" if any(w[0] == 101 for w in want) else "fine"])


# --- whole command lines ------------------------------------------------------------
SPIPED = {o: (o, 1) for o in ("-b", "-k", "-n", "-o", "-p", "-r", "-s", "-t", "-u")}
SPIPED.update({o: (o, 0) for o in ("-d", "-D", "-e", "-f", "-F", "-g", "-j", "-R", "-v", "--syslog")})
SPIPE = {o: (o, 1) for o in ("-b", "-k", "-o", "-t")}
SPIPE.update({o: (o, 0) for o in ("-f", "-g", "-j", "-v")})
addrs = st.sampled_from(["/nonexistent/x", "[127.0.0.1]:80", "[::1]:1", "rel", "", ":80", "[127.0.0.1]", "/a:b"])
nums = st.sampled_from(["0", "1", "5", "100", "-1", "-0", "", "x", "1x", "1.5", "1e3", "inf", "nan", "-inf", "1e400", " 7", "18446744073709551616", "0x10", "60", "60.0", "4294967296", "+3", "-0.0", "1e-9"])


def optval(o):
    if o in ("-s", "-t", "-b"):
        return addrs
    if o in ("-n", "-o", "-r"):
        return nums
    return st.sampled_from(["/nonexistent/k", "x"])


@st.composite
def cmdline(draw):
    prog = draw(st.sampled_from(["spiped", "spiped", "spipe"]))
    table = SPIPED if prog == "spiped" else SPIPE
    # Start from a complete, valid line and change a few things.
    items = []
    if prog == "spiped":
        items.append([draw(st.sampled_from(["-e", "-d"]))])
        items.append(["-s", draw(st.sampled_from(["/nonexistent/x", "[127.0.0.1]:8"]))])
    items.append(["-t", draw(st.sampled_from(["/nonexistent/x", "[127.0.0.1]:8"]))])
    items.append(["-k", "/nonexistent/k"])
    for _ in range(draw(st.integers(0, 4))):
        o = draw(st.sampled_from(sorted(set(table) - {"-s", "-t", "-k", "-e", "-d", "-v"})))
        if any(i[0] == o for i in items):
            continue
        items.append([o, draw({"-b": st.sampled_from(["/nonexistent/b", "[127.0.0.1]:7"]), "-n": st.sampled_from(["0", "1", "100", "99999"]), "-o": st.sampled_from(["0", "1", "2.5", "1e-3", "inf"]), "-r": st.sampled_from(["0", "1", "60", "3.5"])}.get(o, st.just("x")))] if table[o][1] else [o])
    if prog == "spiped" and draw(st.integers(0, 4)) == 0:
        items = [i for i in items if i[0] not in ("-r", "-R")] + [["-R"], ["-r", draw(st.sampled_from(["0", "60", "59", "60.5", "1", "6e1", "inf"]))]]
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
        what = draw(st.sampled_from(["drop", "dup", "add", "val", "val", "noarg", "unknown", "extra"]))
        i = draw(st.integers(0, max(0, len(items) - 1)))
        if what == "drop" and items:
            del items[i]
        elif what == "dup" and items:
            items.insert(draw(st.integers(0, len(items))), list(items[i]))
        elif what == "add":
            o = draw(st.sampled_from(sorted(table)))
            items.append([o, draw(optval(o))] if table[o][1] else [o])
        elif what == "val" and items:
            c = [x for x in items if len(x) > 1]
            if c:
                x = c[i % len(c)]
                x[1] = draw(optval(x[0]))
        elif what == "noarg" and items and len(items[i]) > 1:
            del items[i][1]
        elif what == "unknown":
            items.insert(i, [draw(st.sampled_from(["-q", "--sys", "--syslog=1", "--help", "-Z", "-", "--", "--foo"]))])
        elif what == "extra":
            items.append([draw(st.sampled_from(["extra", "--", "-", ""]))])
    if draw(st.booleans()):
        items = draw(st.permutations(items))
    argv = []
    for it in items:
        if len(it) == 2 and it[0][1] != "-" and it[1] and draw(st.integers(0, 3)) == 0:
            argv.append(it[0] + it[1])                      # -kFILE
        elif len(it) == 1 and len(it[0]) == 2 and it[0][1] != "-" and argv and re.match(r"-[deDfFgjR]+\Z", argv[-1]) and draw(st.booleans()) and not (len(argv) > 1 and argv[-2] in table and table[argv[-2]][1]):
            argv[-1] += it[0][1]                            # packed
        else:
            argv += it
    return dict(prog=prog, argv=argv)


def fval(s):
    """A number in 0..infinity: the value; None if refused; 'any' if either would do."""
    if re.match(r"[ \t]*[+-]?nan", s, re.I):
        return None
    m = FLT.match(s)
    if not m:
        return None
    if m.group(4):
        v = math.inf
    else:
        v = float(m.group(2)) if m.group(2) else float.fromhex(s.strip().lstrip("+-"))
        if math.isinf(v):
            return None
    if m.group(1) == "-" and v != 0:
        return None
    return v


def uval(s):
    m = re.match(r"[ \t]*([+-]?)(0[xX][0-9a-fA-F]+|[0-9]+)\Z", s)
    if not m:
        return None
    v = int(m.group(2), 0 if m.group(2)[:2].lower() == "0x" else 8 if m.group(2)[:1] == "0" else 10)
    if m.group(1) == "-" and v or v >= 1 << 64:
        return None
    return v


def verdict(prog, argv):
    """-> 'version', 'refused', 'resolve' (an address is no good), 'key' (all is well up to the key file)"""
    table = SPIPED if prog == "spiped" else SPIPE
    ev, end = model(table, [prog] + argv)
    seen = {}
    for code, o, arg in ev:
        if code in (100, 101):
            return "refused"
        if o == "-v":
            return "version"
        if o in seen or o in ("-d", "-e") and ("-d" in seen or "-e" in seen):
            return "refused"
        if o in ("-o", "-r") and fval(arg) is None or o == "-n" and uval(arg) is None:
            return "refused"
        seen[o] = arg
    if end != len(argv) + 1:
        return "refused"
    need = {"-k", "-t"} | ({"-s"} if prog == "spiped" else set())
    if not need <= set(seen) or "-f" in seen and "-g" in seen:
        return "refused"
    if prog == "spiped" and not ("-d" in seen or "-e" in seen):
        return "refused"
    if "-R" in seen and "-r" in seen and fval(seen["-r"]) not in (0.0, 60.0):
        return "refused"
    for o in ("-s", "-t", "-b"):
        if o in seen and (seen[o] == "" or seen[o][0] == ":"):
            return "refused"
    if "-D" in seen and "-F" not in seen:
        return "skip"               # would leave a daemon behind
    for o in ("-s", "-t", "-b"):
        if o in seen and seen[o][0] != "/":
            if not re.match(r"\[(127.0.0.1|::1)\]:[0-9]+\Z", seen[o]) and not (o == "-b" and seen[o] == "[127.0.0.1]"):
                return "skip" if "-D" in seen or o == "-b" else "resolve"     # -D: waits until it can be resolved
    if seen["-k"] == "-" or seen["-k"] in ("", ".") or os.path.exists(seen["-k"]):
        return "skip"               # something which can be read, perhaps standard input
    return "key"


def cstrat(tier):
    return st.fixed_dictionaries(dict(lines=st.lists(cmdline(), min_size=1, max_size=4)))


def crun(case):
    cls = []
    with procs.Scratch() as sc:
        for l in case["lines"]:
            w = verdict(l["prog"], l["argv"])
            if w == "skip":
                continue
            try:
                p = subprocess.run([procs.binpath(l["prog"]), *l["argv"]], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=10 * procs.SCALE, cwd=sc.dir, env=procs.child_env())
            except subprocess.TimeoutExpired:
                raise Violation("%s %r keeps running" % (l["prog"], l["argv"]))
            e = p.stderr.decode(errors="replace")
            what = "%s %r: status %d, %s" % (l["prog"], l["argv"], p.returncode, e.strip()[:300])
            check(p.stdout == b"", "%s; it wrote to standard output", what)
            if w == "version":
                check(p.returncode == 0 and re.match("%s " % l["prog"], e), "%s; the version was asked for", what)
            else:
                check(p.returncode == 1, "%s; it should fail with status 1", what)
                past = "Error reading shared secret" in e
                res = "Error resolving" in e
                if w == "refused":
                    check(not past and not res, "%s; the command line is not valid but was accepted", what)
                    check("usage:" in e or "Error parsing argument" in e, "%s; no reason is given for refusing the command line", what)
                elif w == "resolve":
                    check(res, "%s; the address is not valid", what)
                else:
                    check(past, "%s; the command line is valid, only the key file does not exist", what)
            cls.append(w)
            check(not os.listdir(sc.dir), "%s; it left %s behind", what, os.listdir(sc.dir))
    return dict(nontrivial=bool(cls), evals=len(cls), classes=cls)


# --- what the options do -----------------------------------------------------------------
def mstrat(tier):
    return st.fixed_dictionaries(dict(prog=st.sampled_from(["spiped", "spiped", "spipe"]), role=st.sampled_from(["-e", "-d"]), pfs=st.sampled_from([[], [], ["-f"], ["-g"]]), peerpfs=st.booleans(),
                                      j=st.booleans(), o=st.sampled_from([None, None, "0.4", "1", "0", "inf"]), phase=st.sampled_from(["complete"] * 5 + ["silent", "silent", "default"]),
                                      order=st.integers(0, 1), kstdin=st.booleans(), sep=st.booleans()))


def recvn(s, n, secs):
    out = b""
    end = time.monotonic() + secs
    while len(out) < n:
        r, _, _ = select.select([s], [], [], max(0, end - time.monotonic()))
        if not r:
            return out, "timeout"
        try:
            b = s.recv(n - len(out))
        except OSError:
            return out, "reset"
        if not b:
            return out, "eof"
        out += b
    return out, "ok"


def keepalive(port):
    """Is a keep-alive timer running on the sockets of connections to or from the port?"""
    res = []
    with open("/proc/net/tcp") as f:
        for l in f.read().splitlines()[1:]:
            w = l.split()
            if w[3] == "01" and int(w[2].split(":")[1], 16) == port:      # remote port: the daemon's outgoing side, or our own
                res.append((w[1], w[5].split(":")[0]))
    return res


def mrun(case):
    key = world.pattern("c27", 0, 50)
    K = ref.sha256(key)
    client = case["prog"] == "spipe" or case["role"] == "-e"
    with procs.Scratch() as sc:
        kf = sc.write("k", key)
        back = socket.socket()
        back.bind(("127.0.0.1", 0))
        back.listen(5)
        sc.socks.append(back)
        tport = back.getsockname()[1]
        lp = procs.free_port()
        opts = []
        for g in (case["pfs"], ["-j"] if case["j"] else [], ["-o", case["o"]] if case["o"] else []):
            opts = opts + g if case["order"] else g + opts
        kin = None
        if case["kstdin"] and case["prog"] == "spiped":
            opts += ["-k", "-"]
            kin = open(kf, "rb")
        else:
            opts += ["-k", kf]
        T = 5.0 if case["o"] in (None, "0") else float(case["o"])
        tgt = "[127.0.0.1]:%d" % tport
        if case["prog"] == "spipe":
            p = sc.spawn([procs.binpath("spipe"), *opts, "-t", tgt], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
            inc = None
        else:
            p = sc.spawn([procs.binpath("spiped"), "-F", case["role"], "-s", "[127.0.0.1]:%d" % lp, "-t", tgt, *opts], stdin=kin or subprocess.DEVNULL)

            def conn():
                if p.poll() is not None:
                    raise Violation("spiped %r exited at start: %s" % (opts, sc.err(p)))
                s = socket.socket()
                try:
                    s.connect(("127.0.0.1", lp))
                except OSError:
                    s.close()
                    return None
                sc.socks.append(s)
                return s
            inc = procs.wait_for(conn, what="the daemon to listen")
        t0 = time.monotonic()
        back.settimeout(10 * procs.SCALE)
        out, _ = back.accept()
        sc.socks.append(out)
        wire = out if client else inc
        wait = 10 * procs.SCALE
        n, how = recvn(wire, 32, wait)
        check(how == "ok", "no handshake is begun on the %s side (%s, %d bytes)", "target" if client else "source", how, len(n))
        if case["phase"] != "complete" or T < 1:
            # The peer never answers: the connection must go after the time limit, not before.
            long = case["phase"] == "default" and T == 5 and case["o"] != "inf"
            r, how = recvn(wire, 1, T + 3 * procs.SCALE if T < 4 or long else 0.3)
            dt = time.monotonic() - t0
            if T < 4 or long:
                check(how in ("eof", "reset"), "with -o %s, a peer which does not answer is not dropped after %.1f s", case["o"] or "not given", dt)
                check(dt > T * 0.9 - 0.05, "with -o %s, the connection was dropped after %.2f s", case["o"], dt)
            else:
                check(how == "timeout", "with -o %s, the connection was dropped after %.2f s", case["o"], dt)
            if case["prog"] == "spipe" and (T < 4 or long):
                p.stdin.close()
                check(p.wait(3 * procs.SCALE) == 1, "spipe ended with status %s after a failed handshake", p.returncode)
            return dict(nontrivial=True, classes=["silent", "o-%s" % case["o"]])
        peer = ref.sha256(b"peer")
        wire.sendall(peer)
        nC, nS = (n, peer) if client else (peer, n)
        mC, mS = ref.dhmacs(K, nC, nS)
        mine, their = (mS, mC) if client else (mC, mS)
        priv = ref.sha256(b"p27")
        myy = 1 if not case["peerpfs"] else ref.y_of(priv)
        if client:
            y, how = recvn(wire, 288, wait)
            check(how == "ok" and ref.yh(y[:256], their) == y, "the handshake's second part is not right (%s)", how)
            wire.sendall(ref.yh(myy, mine))
        else:
            wire.sendall(ref.yh(myy, mine))
            if case["pfs"] == ["-g"] and not case["peerpfs"]:
                y, how = recvn(wire, 1, wait)
                check(how in ("eof", "reset"), "-g is given but a peer without forward secrecy is answered")
                return dict(nontrivial=True, classes=["-g"])
            y, how = recvn(wire, 288, wait)
            check(how == "ok" and ref.yh(y[:256], their) == y, "the handshake's second part is not right (%s)", how)
        yv = int.from_bytes(y[:256], "big")
        check((yv == 1) == (case["pfs"] == ["-f"]), "with %s, the public value sent is %s", case["pfs"] or "neither -f nor -g", "1" if yv == 1 else "not 1")
        if client and case["pfs"] == ["-g"] and not case["peerpfs"]:
            r, how = recvn(wire, 1, wait)
            check(how in ("eof", "reset"), "-g is given but a peer without forward secrecy is accepted")
            if case["prog"] == "spipe":
                p.stdin.close()
                check(p.wait(3 * procs.SCALE) == 1, "spipe ended with status %s after a failed handshake", p.returncode)
            return dict(nontrivial=True, classes=["-g"])
        ys = 1 if yv == 1 or not case["peerpfs"] else pow(yv, (1 << 258) + int.from_bytes(priv, "big"), ref.P14)
        kc, ks = ref.session_keys(K, nC, nS, ys)
        tx, rx = (ks, kc) if client else (kc, ks)
        # One packet in each direction.
        if case["prog"] == "spipe":
            p.stdin.write(b"hello")
            p.stdin.flush()
        else:
            (inc if client else out).sendall(b"hello")
        pk, how = recvn(wire, 1060, wait)
        d = rx.open(pk) if how == "ok" else None
        check(d is not None and d[0] == b"hello", "the first packet is not right (%s)", how)
        wire.sendall(tx.seal(b"world"))
        if case["prog"] == "spipe":
            g = os.read(p.stdout.fileno(), 5)
        else:
            g, how = recvn(inc if client else out, 5, wait)
        check(g == b"world", "the data received is %r", g)
        ka = [t for a, t in keepalive(tport) if True]
        mine_port = "%04X" % out.getpeername()[1]
        ka = [t for a, t in keepalive(tport) if a.split(":")[1] == mine_port]
        if ka:
            check((ka[0] == "02") == (not case["j"]), "keep-alives are %s although -j was %s", "on" if ka[0] == "02" else "off", "given" if case["j"] else "not given")
    return dict(nontrivial=True, classes=["complete"] + case["pfs"] + (["-j"] if case["j"] else []) + (["keepalive-seen"] if ka else []))


BINS = ("plain",)
TARGETS = [Target("getopt", gstrat, grun, "at least one option is met", quick=(2, 6000, 10), thorough=(4, 200000, 100)),
           Target("lines", cstrat, crun, "every case", quick=(3, 300, 14), thorough=(8, 10000, 150), lib=None, case_timeout=60),
           Target("meaning", mstrat, mrun, "every case", quick=(3, 50, 16), thorough=(8, 1000, 150), lib=None, case_timeout=90)]
