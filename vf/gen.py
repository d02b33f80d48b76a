"""Hypothesis strategies shared by the checks."""
from hypothesis import strategies as st

# Sizes around the packet payload (1024) and record (1060) boundaries.
edge = st.sampled_from([1, 2, 1, 1023, 1024, 1025, 1028, 1059, 1060, 1061, 2047, 2048, 2049, 3072, 4096])
size = st.one_of(edge, st.integers(1, 40), st.integers(1, 5000))
bigsize = st.one_of(size, st.integers(1, 60000))
wiresize = st.one_of(st.builds(lambda k, d: k * 1060 + d, st.integers(1, 4), st.integers(-2, 2)), st.sampled_from([1, 31, 32, 33, 287, 288, 289, 320, 1059, 1060, 1061, 2120, 2121, 100000]), st.integers(1, 3000))

io_byte = st.one_of(st.just(0), st.integers(1, 8), st.integers(1, 200), st.integers(201, 253), st.just(254), st.just(255))
io_tape = st.one_of(st.just([]), st.lists(io_byte, max_size=24), st.lists(io_byte, min_size=1, max_size=6).map(lambda l: l * 40))
misc_tape = st.one_of(st.just([]), st.lists(st.sampled_from([0, 0, 240]), max_size=20))
seed = st.integers(0, 2**32 - 1)
pfs_pair = st.sampled_from([(1, 1), (1, 1), (0, 0), (0, 1), (1, 0)])   # nopfs at (client, server)


def nonempty(s):
    return st.lists(s, min_size=1, max_size=20)
