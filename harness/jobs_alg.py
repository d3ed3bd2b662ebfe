"""P20: counting and indexing code points; find_last; starts_with."""
from jobs import Prop, L, S, C, seq

p = Prop("P20", "alg_h.cpp",
         "well formed UTF-8, UTF-16 and UTF-32 of up to 3 (thorough: 4) arbitrary code points and every position from 0 to one past the end, plus SIZE_MAX; "
         "sequences of up to 6 (thorough: 8) arbitrary bytes and every sought value; prefixes of up to 4 (5) bytes of sequences of up to 5 (6)",
         covers=("text", "found", "absent", "prefix", "no prefix"))
for w in (8, 16, 32):
    for n in range(5):
        p.job("points%d-%d" % (w, n), "h_points_%d" % w, {k: S(3) for k in range(n)}, {0: n}, tier="t" if n == 4 else "q", cost=4 ** n)
for n in range(9):
    p.job("find_last-%d" % n, "h_find_last", {0: S(n), 1: S(1)}, tier="t" if n > 6 else "q", cost=2 ** n / 4)
for n in range(7):
    for m in range(6):
        p.job("starts-%d-%d" % (n, m), "h_starts_with", {0: S(n), 1: S(m)}, tier="t" if n == 6 or m == 5 else "q", cost=n + m)
