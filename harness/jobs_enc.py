"""P09, P10, P11: percent-encoding and percent-decoding."""
from jobs import Prop, L, S, C, seq

SETS = ["fragment", "query", "special_query", "path", "userinfo", "component", "form", "none"]

p = Prop("P09", "pct_h.cpp", "every byte string of at most 10 bytes (13 thorough) in each of the seven encode sets, and in the empty set without '%'", ["something encoded", "nothing encoded"])
for n, nm in enumerate(SETS):
    for k in (0, 1, 2, 3, 5, 7, 9, 10):
        p.job("%s-%d" % (nm, k), "h_round_trip", {0: S(k)}, {0: n}, cost=2 ** k / 100)
    p.job("%s-13" % nm, "h_round_trip", {0: S(13)}, {0: n}, tier="t", cost=100)

p = Prop("P10", "pct_h.cpp", "all 256 byte values in each of the seven encode sets and the empty one; every byte string of at most 9 bytes (12 thorough) in each set", ["needs encoding", "needs none", "in the set", "not in the set"])
for n, nm in enumerate(SETS):
    p.job("byte-%s" % nm, "h_member", {0: S(1)}, {0: n}, cost=1)
    for k in (0, 1, 2, 3, 5, 7, 9):
        p.job("%s-%d" % (nm, k), "h_encode", {0: S(k)}, {0: n}, cost=2 ** k / 100)
    p.job("%s-12" % nm, "h_encode", {0: S(12)}, {0: n}, tier="t", cost=100)

p = Prop("P11", "pct_h.cpp", "every byte string of at most 7 bytes (8 thorough), and of at most 8 bytes (9 for the string function; 12 thorough) from the set '%', '2', '5', 'f', 'A', 'g', 0xC3; every completion of the listed skeletons", ["escapes", "no escape"])
PCT = b"%25fAg\xc3"
for e, nm in (("h_decode", "string"), ("h_decode_iter", "iter"), ("h_decode_view", "view")):
    for k in range(0, 9):
        p.job("%s-%d" % (nm, k), e, {0: S(k)}, tier="q" if k <= 7 else "t", cost=2 ** k / 10)
    for k in (8, 9, 10, 11, 12):
        p.job("%s-set%d" % (nm, k), e, {0: C(k, PCT)}, tier="q" if k <= (9 if nm == "string" else 8) else "t", cost=2 ** k / 20)
    p.job("%s-escapes3" % nm, e, {0: seq(L("%"), S(2), L("%"), S(2), L("%"), S(2))}, cost=20)
    p.job("%s-escapes4" % nm, e, {0: seq(L("%"), S(2), L("%"), S(2), L("%"), S(2), L("%"), S(2))}, tier="t", cost=300)
    p.job("%s-nested" % nm, e, {0: seq(L("%25"), S(2), L("%%"), S(2), L("%"), S(1))}, cost=5)
