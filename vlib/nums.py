"""Integers by the shape of their groups of digits."""
from hypothesis import strategies as st

LEAD = st.sampled_from("112345678999")
REST = st.sampled_from("000112345678900")


@st.composite
def shaped(draw, most, base=4):
    """An integer of at most `most` digits. Each group of `base` digits is empty, one digit, two digits, ..., full as often as
    the others, so every way of joining groups (gaps, a group of ten to nineteen after a round one, ...) turns up soon."""
    n = 0
    for _ in range(draw(st.integers(1, -(-most // base)))):
        k = draw(st.integers(0, base))
        group = "".join([draw(LEAD)] + [draw(REST) for _ in range(k - 1)]) if k else "0"
        n = n * 10 ** base + int(group)
    return n % 10 ** most
