"""C25: address objects: copying, comparing, serializing."""
import ctypes as C, socket, struct
from hypothesis import strategies as st
from vf import gen, sim
from vf.core import Target, check

HDR = 12
good = st.one_of(
    st.tuples(st.just(socket.AF_INET), st.integers(1, 3), st.integers(0, 255), st.just(16)),
    st.tuples(st.just(socket.AF_INET6), st.integers(1, 3), st.integers(0, 255), st.just(28)),
    st.tuples(st.just(socket.AF_UNIX), st.integers(1, 3), st.integers(0, 255), st.just(110)),
    st.tuples(st.integers(-5, 70000), st.integers(-5, 70000), st.integers(0, 255), st.integers(0, 300)))


def strat(tier):
    return st.fixed_dictionaries(dict(
        a=st.lists(good, min_size=1, max_size=5), mut=st.lists(st.tuples(st.sampled_from(["fam", "type", "name", "len", "none"]), st.integers(0, 400), st.integers(1, 255)), min_size=1, max_size=3),
        cut=st.integers(-400, 400), lenval=st.one_of(st.none(), st.sampled_from([0, 1, 0xffffffff, 0xfffffff4, 0x80000000, 2**32 - 12]), st.integers(0, 2**32 - 1)), failat=st.integers(-1, 12)))


def blob(t):
    f, ty, seed, n = t
    name = bytes((seed * 7 + i * 13) & 255 for i in range(n))
    if f == socket.AF_UNIX and n:
        name = name[:2] + bytes(97 + (x & 15) for x in name[2:])[:n - 2]
        name = name[:-1] + b"\0"
    return struct.pack("=iiI", f, ty, n) + name


def ser(L, sa):
    p, n = sim.VP(), sim.SZ()
    rc = L.sock_addr_serialize(sa, C.byref(p), C.byref(n))
    check(rc == 0, "serializing failed")
    b = C.string_at(p, n.value)
    L.sim_free(p)
    return b


def de(L, b):
    # An allocation of exactly this size, so that reading beyond it is noticed.
    m = (C.c_uint8 * max(1, len(b)))()
    p = L.cdll["__wrap_malloc"]
    p.restype, p.argtypes = sim.VP, [sim.SZ]
    q = p(len(b) or 1)
    C.memmove(q, b, len(b))
    r = L.sock_addr_deserialize(C.cast(q, C.c_char_p), len(b))
    L.sim_free(q)
    return r


def run(case):
    L = sim.load()
    sim.fresh_sim(L)
    L.sim_alloc_track = 1
    cls = []
    try:
        live = L.sim_alloc_live
        blobs = [blob(tuple(t)) for t in case["a"]]
        objs = []
        for b in blobs:
            o = de(L, b)
            check(o, "a valid serialization of %d bytes was refused", len(b))
            check(ser(L, o) == b, "the address changed in serialization")
            objs.append(o)
        for i, a in enumerate(objs):
            for j, b in enumerate(objs):
                check((L.sock_addr_cmp(a, b) == 0) == (blobs[i] == blobs[j]), "comparison says %s", "equal" if blobs[i] != blobs[j] else "different")
            d = L.sock_addr_dup(a)
            check(d and d != a and ser(L, d) == blobs[i] and L.sock_addr_cmp(a, d) == 0, "the copy differs")
            L.sock_addr_free(d)
            check(ser(L, a) == blobs[i], "releasing a copy damaged the original")
        # Addresses differing in one field.
        b = bytearray(blobs[0])
        for what, pos, x in case["mut"]:
            if what == "fam":
                b[pos % 4] ^= x
            elif what == "type":
                b[4 + pos % 4] ^= x
            elif what == "name" and len(b) > HDR:
                b[HDR + pos % (len(b) - HDR)] ^= x
            elif what == "len":
                b[8:12] = struct.pack("=I", len(b) - HDR + 1)
                b += b"\x01"
        o = de(L, bytes(b))
        check(o, "a valid serialization was refused")
        check((L.sock_addr_cmp(objs[0], o) != 0) == (bytes(b) != blobs[0]) and (L.sock_addr_cmp(o, objs[0]) != 0) == (bytes(b) != blobs[0]), "comparison wrong for addresses differing in %s", [m[0] for m in case["mut"]])
        L.sock_addr_free(o)
        # A list and its copy.
        arr = (sim.VP * (len(objs) + 1))(*objs, None)
        dl = L.sock_addr_duplist(arr)
        check(dl, "copying the list failed")
        da = C.cast(dl, C.POINTER(sim.VP))
        got = []
        while da[len(got)]:
            check(da[len(got)] not in objs, "the copied list shares an address with the original")
            got.append(ser(L, da[len(got)]))
        check(got == blobs, "the copied list has %d addresses instead of %d, or others", len(got), len(blobs))
        L.sock_addr_freelist(dl)
        # Damaged serializations.
        b = bytearray(blobs[-1])
        if case["lenval"] is not None:
            b[8:12] = struct.pack("=I", case["lenval"])
        b = bytes(b)
        b = b[:max(0, len(b) + case["cut"])] if case["cut"] <= 0 else b + b"Z" * case["cut"]
        ok = len(b) >= HDR and struct.unpack("=I", b[8:12])[0] == len(b) - HDR
        o = de(L, b)
        check(bool(o) == ok, "a serialization of %d bytes with an inner length of %s was %s", len(b), struct.unpack("=I", b[8:12])[0] if len(b) >= 12 else None, "accepted" if o else "refused")
        if o:
            check(ser(L, o) == b, "the address changed in serialization")
            L.sock_addr_free(o)
        else:
            cls.append("damaged")
        # Without memory.
        if case["failat"] >= 0:
            l0 = L.sim_alloc_live
            L.sim_alloc_failed = 0
            L.sim_alloc_fail_at = case["failat"]
            dl = L.sock_addr_duplist(arr)
            L.sim_alloc_fail_at = -1
            check(bool(dl) == (L.sim_alloc_failed == 0), "copying a list without memory: %s", "succeeded" if dl else "failed although memory was available")
            if dl:
                L.sock_addr_freelist(dl)
            else:
                cls.append("nomem")
            check(L.sim_alloc_live == l0, "a failed copy leaves %d blocks behind", L.sim_alloc_live - l0)
            check([ser(L, o) for o in objs] == blobs, "a failed copy damaged the original")
        for o in objs:
            L.sock_addr_free(o)
        L.sock_addr_free(None)
        L.sock_addr_freelist(None)
        check(L.sim_alloc_live == live, "%d blocks of memory were not released", L.sim_alloc_live - live)
    finally:
        L.sim_alloc_fail_at = -1
        L.sim_alloc_track = 0
    return dict(nontrivial=True, classes=cls)


TARGETS = [Target("objects", strat, run, "every case", quick=(4, 1500, 12), thorough=(8, 50000, 100))]
