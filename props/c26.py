"""C26: parsing numbers: exactly the numbers within the bounds, nothing else."""
import ctypes as C, math, re, struct
from fractions import Fraction
from hypothesis import strategies as st
from vf import gen, sim
from vf.core import Target, check

EINVAL, ERANGE = 22, 34
UT = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "size": 64}
ST = {"i8": 8, "i16": 16, "i32": 32, "i64": 64}
WS = " \t\n\v\f\r"

edge = st.one_of([st.just(x) for b in (0, 7, 8, 15, 16, 31, 32, 53, 63, 64, 65, 128) for x in ((1 << b) - 2, (1 << b) - 1, 1 << b, (1 << b) + 1)])
num = st.one_of(st.integers(0, 300), edge, st.integers(0, 2**70))


@st.composite
def digits(draw):
    n = draw(num)
    f = draw(st.sampled_from(["%d", "%d", "%d", "0%o", "0x%x", "0X%X", "00%d", "%x"]))
    s = f % n
    return draw(st.sampled_from(["", "", "", " ", "\t \n", "-", "-", "+", " -", "- ", "--", "+-", "\x0b", "\xa0"])) + s + draw(st.sampled_from(["", "", "", "", " ", "x", "k", ".0", "e1", "-", "\n", "\x01", "9", "z"]))


def istrat(tier):
    t = st.sampled_from(list(UT) + list(ST))
    b = st.one_of(st.integers(0, 300), edge, st.integers(0, 2**64 - 1))
    return st.fixed_dictionaries(dict(t=t, s=st.one_of(digits(), digits(), digits(), st.text("0123456789xXabz+- \t", max_size=8)), form=st.sampled_from(["2", "4", "4", "s", "x", "x"]),
                                      lo=b, hi=b, neglo=st.booleans(), neghi=st.booleans(), near=st.booleans(), base=st.sampled_from([0, 2, 3, 8, 10, 16, 36]), trailing=st.integers(0, 1)))


def value(s, base):
    """The number at the start of s by the rules of C: (value, rest) or None."""
    m = re.match("[%s]*([+-]?)" % WS, s)
    neg, r = m.group(1) == "-", s[m.end():]
    if base in (0, 16) and re.match("0[xX][0-9a-fA-F]", r):
        r, b = r[2:], 16
    elif base == 0:
        b = 8 if r[:1] == "0" else 10
    else:
        b = base
    ok = "0123456789abcdefghijklmnopqrstuvwxyz"[:b]
    n = 0
    while n < len(r) and r[n].lower() in ok and r[n] < "\x80":
        n += 1
    if n == 0:
        return None
    v = int(r[:n], b)
    return (-v if neg else v), r[n:]


def irun(case):
    L = sim.load()
    t, f, s = case["t"], case["form"], case["s"]
    bits = UT.get(t) or ST[t]
    uns = t in UT
    tmin, tmax = (0, (1 << bits) - 1) if uns else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    lo, hi = case["lo"], case["hi"]
    signed_bounds = not uns or f == "s"
    if case["near"]:
        v = value(s, case["base"] if f == "x" else 0)
        if v:
            lo, hi = (abs(v[0]) + lo % 3 - 1, abs(v[0]) + hi % 5) if case["hi"] % 2 else (lo % 50, abs(v[0]) + hi % 3 - 1)
            lo, hi = max(0, lo), max(0, hi)
    if signed_bounds:
        lo, hi = min(lo, 2**63 - 1), min(hi, 2**63 - 1)
        if case["neglo"]:
            lo = -lo
        if case["neghi"]:
            hi = -hi
    else:
        lo, hi = max(0, min(lo, 2**64 - 1)), max(0, min(hi, 2**64 - 1))
    if not uns:
        # Bounds have to fit the type (they are what may be stored).
        lo, hi = max(tmin, min(tmax, lo)), max(tmin, min(tmax, hi))
    if f == "2" and not uns or f == "s" and not uns:
        f = "4"
    base, trailing = (case["base"], case["trailing"]) if f == "x" else (0, 0)
    if f == "2":
        lo, hi = tmin, tmax
    out = C.c_uint64(0) if uns else C.c_int64(0)
    err = C.c_int(-1)
    fn = L.cdll["g_pn%s_%s" % (f, t)]
    bt = C.c_int64 if signed_bounds else C.c_uint64
    args = [C.c_char_p(s.encode("latin-1"))]
    if f != "2":
        args += [bt(lo), bt(hi)]
    if f == "x":
        args += [base, trailing]
    rc = fn(*args, C.byref(out), C.byref(err))
    v = value(s, base)
    if v is None or (v[1] != "" and not trailing):
        want = EINVAL
    elif max(lo, tmin) <= v[0] <= min(hi, tmax):
        want = 0
    else:
        want = ERANGE
    what = "%s as %s within %d..%d%s" % (repr(s), t, lo, hi, ", base %d, trailing %d" % (base, trailing) if f == "x" else "")
    # A number which is both out of range and followed by something else may be refused for either.
    if want == EINVAL and v is not None:
        check(rc != 0 and err.value in (EINVAL, ERANGE), "%s was accepted as %d", what, out.value)
    elif want:
        check(rc != 0, "%s was accepted as %d", what, out.value)
        check(err.value == want, "%s was refused with error %d instead of %d", what, err.value, want)
    else:
        check(rc == 0, "%s was refused", what)
        check(out.value == v[0], "%s gave %d", what, out.value)
        check(err.value == 0, "%s was accepted but errno is %d", what, err.value)
    return dict(nontrivial=v is not None, classes=["ok" if not want else "einval" if want == EINVAL else "erange", t])


# --- floating point ----------------------------------------------------------------
def fstrat(tier):
    x = st.one_of(st.floats(allow_nan=False).map(repr), st.decimals(-10**6, 10**6, places=3).map(str), st.integers(-2**70, 2**70).map(str), st.floats(allow_nan=False).map(float.hex),
                  st.sampled_from(["inf", "INFINITY", "-inf", "1e400", "-1e999", "1e-400", ".5", "5.", "0x.8p1", "1e", "e5", ".", "infinit", "1e+", "0x", "", "+", "1,5", "1_0"]))
    b = st.one_of(st.sampled_from(["-inf", "inf", 0.0, 1.0, 0.1, -1.0, 1e308]), st.floats(-1e6, 1e6))
    return st.fixed_dictionaries(dict(s=st.tuples(st.sampled_from(["", "", " ", "\t", "+", "-"]), x, st.sampled_from(["", "", "", " ", "s", "0", "f"])).map("".join),
                                      form=st.sampled_from(["2d", "4d", "4f"]), lo=b, hi=b))


FLT = re.compile(r"[ \t\n\v\f\r]*([+-]?)(?:((?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)|0[xX]((?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][+-]?[0-9]+)?)|([iI][nN][fF](?:[iI][nN][iI][tT][yY])?))\Z")


def frun(case):
    L = sim.load()
    s = case["s"]
    out, err = C.c_double(0), C.c_int(-1)
    lo, hi = float(case["lo"]), float(case["hi"])
    form = case["form"]
    n = {"2d": "g_pn2_dbl", "4d": "g_pn4_dbl", "4f": "g_pn4_flt"}[form]
    a = [C.c_char_p(s.encode("latin-1"))]
    if form != "2d":
        a += [C.c_double(lo), C.c_double(hi)]
    else:
        lo, hi = -math.inf, math.inf
    rc = L.cdll[n](*a, C.byref(out), C.byref(err))
    m = FLT.match(s)
    if not m:
        check(rc != 0, "%r was accepted as a number: %r", s, out.value)
        return dict(nontrivial=False, classes=["einval"])
    neg = m.group(1) == "-"
    if m.group(4):
        v = -math.inf if neg else math.inf
        exact = None
    else:
        v = float(m.group(2)) if m.group(2) else float.fromhex("0x" + m.group(3)) if not over(m.group(3)) else math.inf
        if neg:
            v = -v
        exact = True
        if math.isinf(v) or (v == 0 and re.search("[1-9a-fA-F]", re.split("[pP]" if m.group(3) else "[eE]", m.group(2) or m.group(3))[0])) or 0 < abs(v) < 2.3e-308:
            return dict(nontrivial=True, classes=["overflow"])    # beyond what a double holds: either answer
    if lo <= v <= hi:
        check(rc == 0, "%r within %r..%r was refused", s, lo, hi)
        w = struct.unpack("f", struct.pack("f", v))[0] if form == "4f" and not math.isinf(v) and abs(v) < 3e38 else v
        if form != "4f" or abs(v) < 3e38 or math.isinf(v):
            check(out.value == w, "%r gave %r", s, out.value)
        check(err.value == 0, "%r was accepted but errno is %d", s, err.value)
    else:
        check(rc != 0, "%r was accepted although it is not within %r..%r", s, lo, hi)
        check(err.value == ERANGE, "%r outside %r..%r was refused with error %d", s, lo, hi, err.value)
    return dict(nontrivial=True, classes=["ok" if lo <= v <= hi else "erange"])


def over(h):
    try:
        float.fromhex("0x" + h)
        return False
    except OverflowError:
        return True


TARGETS = [Target("integers", istrat, irun, "the text starts with a number", quick=(5, 6000, 12), thorough=(8, 200000, 150)),
           Target("floats", fstrat, frun, "the text is a number", quick=(3, 4000, 12), thorough=(4, 200000, 100))]
