"""Generators shared by several checks."""
from hypothesis import strategies as st
from vh import rng


@st.composite
def times(draw, counts=(1, 2, 3, 5, 8, 20), steps=(1, 10, 60, 1800), unit=1, kinds=("sorted", "sorted", "shuffled", "dup", "mixed")):
    """Seconds relative to the start of the requested date, per record: sorted, shuffled,
    repeated and other-day timestamps."""
    n = draw(st.sampled_from(counts))
    kind = draw(st.sampled_from(kinds))
    step = draw(st.sampled_from(steps))
    base = draw(st.sampled_from([0, 3600, 86400 - step * n]))
    t = [base + i * step for i in range(n)]
    if kind in ("dup", "mixed"):
        k = draw(st.integers(0, n - 1))
        t[k] = t[draw(st.integers(0, n - 1))]
    if kind == "mixed":
        for k in draw(st.lists(st.integers(0, n - 1), max_size=3)):
            t[k] += draw(st.sampled_from([86400, -86400, -unit, 86400 - unit]))
    if kind in ("shuffled", "dup", "mixed"):
        r = rng(draw(st.integers(0, 2**31)))
        t = [t[i] for i in r.permutation(n)]
    if kind == "mixed" and draw(st.booleans()):  # a record of another day comes first
        t.sort(key=lambda x: 0 <= x < 86400)
    return t
