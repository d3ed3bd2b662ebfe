"""P16-P19: Unicode transcoding."""
from jobs import Prop, L, S, seq

W = {8: 1, 16: 2, 32: 4}
ENC = (8, 16, 32)


def hx(h):
    return L(bytes.fromhex(h))


p = Prop("P16", "icu_h.cpp", "every sequence of at most 3 Unicode scalar values (4 thorough) in each of the nine pairs of UTF-8, UTF-16 and UTF-32", ["well formed"])
for a in ENC:
    for b in ENC:
        for n in (0, 1, 2, 3):
            p.job("%d-%d-%d" % (a, b, n), "h_wf_%d_%d" % (a, b), {k: S(3) for k in range(n)}, {0: n}, cost=n + 1)
        p.job("%d-%d-4" % (a, b), "h_wf_%d_%d" % (a, b), {k: S(3) for k in range(4)}, {0: 4}, tier="t", cost=100)

p = Prop("P17", "icu_h.cpp", "every sequence of at most 6 UTF-8, 4 UTF-16 or 3 UTF-32 code units (7, 6 and 5 thorough), each followed by the end of input, in each of the nine pairs; transcoders started as well formed and as not well formed", ["well formed", "ill formed", "resumed"])
QN = {8: range(0, 7), 16: range(0, 5), 32: range(0, 4)}
TN = {8: (7,), 16: (5, 6), 32: (4, 5)}
for a in ENC:
    for b in ENC:
        for w in (1, 0):
            if w == 0 and (a, b) not in ((8, 32), (32, 8), (16, 32), (32, 16)):
                continue
            for n in list(QN[a]) + list(TN[a]):
                p.job("%d-%d-%d%s" % (a, b, n, "" if w else "-ill"), "h_any_%d_%d" % (a, b), {0: S(n * W[a])}, {0: w}, tier="q" if n in QN[a] else "t", cost=4 ** (n - 4) if a == 8 else n)

p = Prop("P18", "icu_h.cpp", "every byte stream of at most 7 bytes (8 thorough), and every stream of each of the five byte order marks followed by at most 8 bytes (11 for UTF-32; 6 for UTF-8, 7 thorough)", ["UTF-8", "UTF-16BE", "UTF-16LE", "UTF-32BE", "UTF-32LE", "truncated"])
MARKS = (("u8", "efbbbf", (4, 5, 6), (7,)), ("be16", "feff", (6, 7, 8), (9, 10)), ("le16", "fffe", (6, 7, 8), (9, 10)), ("be32", "0000feff", (4, 5, 8, 9, 10, 11), (12, 13, 16)), ("le32", "fffe0000", (4, 5, 8, 9, 10, 11), (12, 13, 16)))
for b in ENC:
    for n in range(0, 9):
        p.job("%d-any%d" % (b, n), "h_bytes_%d" % b, {0: S(n)}, tier="q" if n < 8 else "t", cost=4 ** (n - 4))
    for nm, m, q, t in MARKS:
        for n in q + t:
            p.job("%d-%s-%d" % (b, nm, n), "h_bytes_%d" % b, {0: seq(hx(m), S(n))}, tier="q" if n in q else "t", cost=3)

p = Prop("P19", "icu_h.cpp", "icubaby::iterator and the transcode view over every sequence of at most 5 UTF-8, 4 UTF-16 or 3 UTF-32 code units (6, 5 and 4 thorough) in each of the nine pairs, over byte streams of at most 5 bytes (6 thorough) and of each byte order mark with 5 to 8 bytes; the view of a range with a sentinel for byte streams and three pairs", ["nothing", "output", "sentinel"])
QA = {8: (0, 1, 2, 3, 4, 5), 16: (0, 1, 2, 3, 4), 32: (0, 1, 2, 3)}
TA = {8: (6,), 16: (5,), 32: (4,)}
for a in ENC:
    for b in ENC:
        for n in QA[a] + TA[a]:
            p.job("ada-%d-%d-%d" % (a, b, n), "h_ada_%d_%d" % (a, b), {0: S(n * W[a])}, tier="q" if n in QA[a] else "t", cost=n)
for b in ENC:
    for n in range(0, 7):
        p.job("ada-x-%d-%d" % (b, n), "h_ada_x_%d" % b, {0: S(n)}, tier="q" if n < 6 else "t", cost=n)
        if n:
            p.job("sen-x-%d-%d" % (b, n), "h_sen_x_%d" % b, {0: S(n)}, tier="q" if n < 6 else "t", cost=n)
    for nm, m, n in (("u8", "efbbbf", 5), ("be16", "feff", 7), ("be16", "feff", 8), ("le16", "fffe", 6), ("le16", "fffe", 8), ("be32", "0000feff", 8), ("le32", "fffe0000", 8)):
        p.job("ada-x-%d-%s-%d" % (b, nm, n), "h_ada_x_%d" % b, {0: seq(hx(m), S(n))}, cost=4)
for a, b, k in ((32, 8, 3), (8, 32, 6), (16, 8, 4)):
    for n in range(1, k + 1):
        p.job("sen-%d-%d-%d" % (a, b, n), "h_sen_%d_%d" % (a, b), {0: S(n * W[a])}, cost=n)
