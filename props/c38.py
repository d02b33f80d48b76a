"""C38: what is done with secrets takes a time which does not depend on them."""
import os, re, subprocess, tempfile
from hypothesis import strategies as st
from vf import build, core, gen, procs, world
from vf.core import Target, check, Violation

BINS = ("ct",)
_pre, _keys = [], {}


def key(n):
    """A key file of n bytes (this process's)."""
    if n not in _keys:
        f = tempfile.NamedTemporaryFile(prefix="vfp-key-", dir=os.environ.get("VF_TMP") or None)
        f.write(world.pattern("ct key %d" % n, 0, n))
        f.flush()
        _keys[n] = f
    return _keys[n].name


def ct(case, args):
    if not _pre:
        ok = subprocess.run([build.ctbin()], capture_output=True).returncode == 0
        _pre.append([] if ok else ["setarch", "-R"])
    try:
        r = subprocess.run([*_pre[0], build.ctbin(), "z%d" % (case["seed"] % 2**31), *args], capture_output=True, timeout=100)
    except subprocess.TimeoutExpired:
        raise Violation("no end within 100 seconds: %s" % " ".join(args))
    err = r.stderr.decode(errors="replace")
    if "MemorySanitizer" in err:
        fr = re.findall(r"#\d+ \S+ in (\S+) \S*?([^/\s]+\.[ch]:\d+)", err)
        raise Violation("the program's course depends on secret data: %s" % " < ".join("%s %s" % f for f in fr[:5]))
    check(r.returncode == 0, "status %d: %s", r.returncode, err.strip()[-300:])


# --- comparing and hashing ---------------------------------------------------------
def alg_strat(tier):
    n = st.one_of(st.integers(0, 140), st.sampled_from([0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 127, 128, 1024, 5000]))
    op = st.one_of(st.tuples(st.just("v"), n, st.integers(-1, 40), st.integers(0, 1)), st.tuples(st.just("h"), st.integers(0, 3), n, n, st.integers(1, 150)))
    return st.fixed_dictionaries(dict(ops=st.lists(op, min_size=1, max_size=20), seed=gen.seed))


def alg_run(case):
    ct(case, [o[0] + ",".join(map(str, o[1:])) for o in case["ops"]])
    return dict(nontrivial=True, classes=["compare" if o[0] == "v" else ("sha256", "hmac", "hmac-buf", "pbkdf2")[o[1]] for o in case["ops"]])


# --- handshakes and packets -----------------------------------------------------------
def ses_strat(tier):
    # Positions: ciphertext, length, MAC.
    pkt = st.tuples(st.integers(0, 1), st.one_of(st.integers(1, 1024), st.sampled_from([1, 1023, 1024])), st.one_of(st.just(-1), st.just(-1), st.just(-1), st.integers(0, 1059), st.integers(1024, 1059)))
    k = st.sampled_from([0, 1, 32, 64, 65, 1000, 9000])
    return st.fixed_dictionaries(dict(flags=st.one_of(st.just(0), st.integers(0, 15)), k1=k, k2=st.one_of(st.none(), st.none(), st.none(), k), pkts=st.lists(pkt, max_size=8), seed=gen.seed))


def ses_run(case):
    fl = case["flags"]
    k2 = case["k1"] if case["k2"] is None else case["k2"]
    # -g on one side refuses -f on the other (bits: client -f, client -g, server -f, server -g).
    ok = k2 == case["k1"] and not (fl & 2 and fl & 5) and not (fl & 8 and fl & 5)
    # What a side requiring PFS does when it declines PFS itself is not the subject here.
    want = -1 if (fl & 3) == 3 or (fl & 12) == 12 else int(ok)
    ct(case, ["s%d,%d" % (fl, want), key(case["k1"]), key(k2), *["%d,%d,%d" % tuple(p) for p in case["pkts"]], "end"])
    return dict(nontrivial=True, classes=["handshake done" if ok else "handshake refused", "packet changed" if any(p[2] >= 0 for p in case["pkts"]) else "packets unchanged"])


# --- private exponents ----------------------------------------------------------------
def dh_strat(tier):
    return st.fixed_dictionaries(dict(how=st.integers(0, 2), n=st.integers(0, 4), seed=gen.seed))


def dh_run(case):
    ct(case, ["x%d,%d" % (case["how"], case["n"])])
    return dict(nontrivial=True, classes=["public value" if case["how"] < 2 else "shared value"])


TARGETS = [
    Target("alg", alg_strat, alg_run, "every case", (2, 400, 7), (3, 60000, 150), lib=None, case_timeout=130),
    Target("session", ses_strat, ses_run, "every case", (4, 300, 8), (8, 60000, 400), lib=None, case_timeout=130),
    Target("dh", dh_strat, dh_run, "every case", (2, 100, 6), (3, 20000, 150), lib=None, case_timeout=130),
]
