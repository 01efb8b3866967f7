"""Reference-side generators shared by the properties (python3-vt Hypothesis)."""
import struct

from hypothesis import strategies as st


def bits_to_float(i):
    return struct.unpack("!d", i.to_bytes(8, "big"))[0]


# every bit pattern, biased to the boundaries of the format
BITS = [
    0, 1, 2, 1 << 63, (1 << 63) | 1, 0x3FF0000000000000, 0x3FF0000000000001,
    0x3FEFFFFFFFFFFFFF, 0x7FEFFFFFFFFFFFFF, 0x7FF0000000000000, 0xFFF0000000000000,
    0x7FF8000000000000, 0x7FF8000000000001, 0x7FF0000000000001, 0xFFF8000000000000,
    0xFFFFFFFFFFFFFFFF, 0x7FFFFFFFFFFFFFFF, 0x0010000000000000, 0x000FFFFFFFFFFFFF,
    0x4340000000000000, 0x433FFFFFFFFFFFFF, 0x4340000000000001, 0x4370000000000000,
    0x436FFFFFFFFFFFFF, 0x3810000000000000, 0x380FFFFFFFFFFFFF, 0x3F10000000000000,
    0x47EFFFFFE0000000, 0x47EFFFFFF0000000, 0x40EFFC0000000000, 0x40EFFE0000000000,
]


def float_bits():
    return st.one_of(
        st.sampled_from(BITS),
        st.integers(0, 2**64 - 1),
        st.tuples(st.sampled_from(BITS), st.integers(-3, 3)).map(lambda t: (t[0] + t[1]) % 2**64),
        st.tuples(st.integers(0, 1), st.integers(1015, 1090), st.integers(0, 2**52 - 1), st.integers(0, 52)).map(
            lambda t: (t[0] << 63) | (t[1] << 52) | (t[2] >> t[3] << t[3])),
        st.integers(-2000, 2000).map(lambda i: struct.unpack("!Q", struct.pack("!d", i / 4))[0]),
    )


def any_float():
    return float_bits().map(bits_to_float)


def finite_float():
    import math
    return any_float().filter(math.isfinite)


def nonnan_float():
    import math
    return any_float().filter(lambda f: not math.isnan(f))


def big_ints():
    return st.one_of(
        st.integers(-5, 5),
        st.integers(-300, 300),
        st.tuples(st.sampled_from([7, 8, 15, 16, 24, 31, 32, 53, 56, 63, 64, 65, 127, 128, 129, 200]),
                  st.integers(-2, 2), st.sampled_from([1, -1])).map(lambda t: t[2] * 2 ** t[0] + t[1]),
        st.integers(),
        st.integers(-2**140, 2**140),
    )


def seeds():
    return st.integers(0, 2**32 - 1)
