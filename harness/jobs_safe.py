"""P24: memory safety and freedom from crashes; P26: conversion to a filesystem path."""
from jobs import Prop, L, S, C, seq

p = Prop("P24", "safe_h.cpp",
         "split and split_reference over every text of up to 6 arbitrary bytes (thorough: 7) and longer texts of literal and arbitrary bytes, each followed by every operation on the result; "
         "join of every pair of up to 3+3 arbitrary bytes and longer ones; every operation on structures with each combination of components of one arbitrary byte each, and of up to 3 (thorough: 4; host: 2) in single ones, that need not be valid; "
         "percent coding of up to 5 (6) arbitrary bytes with each set; Punycode decoding of up to 3 arbitrary bytes and longer literal mixes, encoding of single units below 2^24 and "
         "pairs below 2^16+literal; hosts of up to 5 arbitrary bytes and prefixed labels; transcoding of up to 5 arbitrary UTF-8 units, 3 UTF-16, 2 UTF-32, 6 bytes into each encoding; "
         "undefined integer operations, array bounds and pointer arithmetic are checked by UBSan traps in the encoded code; every access is checked against the live object it is derived from",
         covers=("text", "structure"),
         assumptions=("allocation succeeds",))
J = lambda *a, **k: p.job(*a, ub=True, **k)
for ref in (0, 1):
    for n in range(8):
        J("split%d-%d" % (ref, n), "h_split", {0: S(n)}, {0: ref}, cost=5 ** n / 1000, tier="t" if n > 6 - ref else "q")
    for nm, t, tier in (("authority", seq(L("s://"), S(4)), "q"), ("authority5", seq(L("s://"), S(5)), "t"), ("userinfo", seq(L("s://u%41@"), S(3)), "q"), ("ipv6", seq(L("s://[1::"), S(4), L("]")), "q"),
                        ("ipv6-8", seq(L("s://[1:2:3:4:5:6:"), S(4)), "q"), ("ipv4", seq(L("s://25"), S(4)), "q"), ("ipvfuture", seq(L("s://[v1."), S(3), L("]")), "q"), ("port", seq(L("s://h:8"), S(3)), "q"),
                        ("dots", seq(L("s:/a/.."), S(2), L("./"), S(2)), "q"), ("escapes", seq(L("s:%"), S(3), L("%"), S(1)), "q"), ("tail", seq(L("s:a?b"), S(2), L("#c"), S(2)), "q"),
                        ("colon", seq(L("."), S(2), L(":"), S(2)), "q")):
        J("split%d-%s" % (ref, nm), "h_split", {0: t}, {0: ref}, cost=5, tier=tier)
for strict in (0, 1):
    for nm, a, b, tier in (("23", S(2), S(3), "q"), ("32", S(3), S(2), "q"), ("33", S(3), S(3), "t"), ("base", seq(L("s:"), S(3)), seq(S(2)), "q"), ("ref", L("s://h/a/b?q"), S(4), "q"),
                           ("dots", L("s:a"), seq(L(".."), S(3)), "q"), ("same", seq(L("s:"), S(2)), seq(L("s:"), S(2)), "q"), ("ref5", L("s:/a/b"), S(5), "t")):
        J("join%d-%s" % (strict, nm), "h_join_text", {0: a, 1: b}, {0: strict}, cost=8, tier=tier)


def structure(nm, entry, bits, comp, segs=(), absolute=0, null=0, string=0, tier="q", cost=3):
    ins = dict(comp)
    if bits & 0xE:
        ins.setdefault(2, "")
    for k, t in enumerate(segs):
        ins[10 + k] = t
    J(nm, entry, ins, {0: bits, 1: len(segs), 2: absolute, 3: null, 4: string}, tier=tier, cost=cost)


def comps(bits, n):
    return {k: S(n) for k in range(6) if bits >> k & 1}


for bits in range(64):
    if bits & 10 and not bits & 4:
        continue
    structure("struct-%02d" % bits, "h_structure", bits, comps(bits, 1), (S(1),), absolute=bits & 1)
    structure("stores-%02d" % bits, "h_stores", bits, comps(bits, 1), (S(1),), absolute=bits & 1, string=bits >> 4 & 1)
for k in range(6):
    bits = 1 << k | (4 if k in (1, 3) else 0)
    for n in (0, 2, 3, 4):
        if k == 2 and n > 2:
            continue
        structure("struct-one%d-%d" % (k, n), "h_structure", bits, {k: S(n)}, cost=n, tier="t" if n > 3 else "q")
        structure("stores-one%d-%d" % (k, n), "h_stores", bits, {k: S(n)}, cost=n, string=1, tier="t" if n > 3 else "q")
for ab in (0, 1):
    for nm, segs in (("1", (S(3),)), ("2", (S(2), S(2))), ("3", (S(1), S(2), S(1))), ("5", (S(1), "", S(1), L(".."), S(1))), ("0", ()), ("e", ("", "", ""))):
        structure("struct-path%d-%s" % (ab, nm), "h_structure", 0, {}, segs, absolute=ab)
        structure("struct-apath%d-%s" % (ab, nm), "h_structure", 4, {2: S(1)}, segs, absolute=ab)
        structure("stores-path%d-%s" % (ab, nm), "h_stores", 0, {}, segs, absolute=ab)
for n in (25, 26, 27, 33):
    structure("stores-many-%d" % n, "h_stores", 0x15, {0: L("s"), 2: S(1), 4: S(1)}, [S(1) if k in (0, 24, 25, 26, n - 1) else L("a") for k in range(n)])
    structure("struct-many-%d" % n, "h_structure", 0x10, {4: S(1)}, [S(2) if k in (3, n - 1) else L("..") if k % 3 == 1 else L("b") for k in range(n)])
for nm, t in (("x2", seq(L(b"\xc3"), S(2))), ("x3", seq(L(b"a\xe2\x82"), S(1), L("b"))), ("dot", seq(S(1), L("."), S(1))), ("xn", seq(L("xn--"), S(2)))):
    structure("stores-host-" + nm, "h_stores", 4, {2: t}, cost=20)
    structure("struct-host-" + nm, "h_structure", 4, {2: t})
structure("struct-null", "h_structure", 63, {2: ""}, ("", ""), null=0x7f)
structure("stores-null", "h_stores", 63, {2: ""}, ("", ""), null=0x7f)
for es in (0, 1, 2, 4, 8, 16, 32, 64):
    for n in (0, 1, 2, 3, 4, 5, 6):
        J("percent-%d-%d" % (es, n), "h_percent", {0: S(n)}, {0: es}, tier="q" if n in ((1, 3) if es > 1 else (0, 1, 2, 3, 4, 5)) else "t", cost=n)
for nm, t, tier in (("0", "", "q"), ("1", S(1), "q"), ("2", S(2), "q"), ("3", S(3), "q"), ("4", S(4), "t"), ("a", seq(L("ab-"), S(2)), "q"), ("min", seq(S(2), L("-"), S(1)), "q"), ("top", seq(L("a-"), S(1), L("zzz")), "q"),
                    ("huge", seq(L("99999999999999"), S(1)), "q"), ("max", seq(L("zzzzz"), S(2)), "q")):
    J("punydec-" + nm, "h_punycode", {0: t}, {}, tier=tier, cost=10)
Z = L(b"\0"); ZZ = L(b"\0\0"); ZZZ = L(b"\0\0\0")
for plain in (0, 1):
    for nm, t, tier in (("0", "", "q"), ("8", seq(ZZZ, S(1)), "q"), ("16", seq(ZZ, S(2)), "q"), ("24", seq(Z, S(3)), "q" if plain else "t"), ("a16", seq(ZZZ, L("a"), ZZ, S(2)), "q"), ("16a", seq(ZZ, S(2), ZZZ, L("a")), "q"),
                        ("8-8", seq(ZZZ, S(1), ZZZ, S(1)), "q")):
        J("punyenc%d-%s" % (plain, nm), "h_punycode_encode", {0: t}, {0: plain}, tier=tier, cost=20 if nm == "24" else 3)
for nm, t in (("0", ""), ("2", S(2)), ("4", S(4)), ("5", S(5)), ("xn", seq(L("xn--"), S(3))), ("a.xn", seq(S(1), L(".xn--"), S(2))), ("xn.xn", seq(L("xn--a-"), S(1), L(".xn--"), S(1))), ("cut", seq(L("xn-"), S(3)))):
    J("hosts-" + nm, "h_hosts", {0: t}, {}, cost=4)
for f, w, q, th in (("8", 1, range(0, 6), (6,)), ("16", 2, range(0, 4), (4,)), ("32", 4, range(0, 3), (3,)), ("x", 1, range(0, 7), (7,))):
    for to in (8, 16, 32) + ((0,) if f != "x" else ()):
        for n in list(q) + list(th):
            J("from%s-%d-%d" % (f, to, n), "h_from_" + f, {0: S(n * w)}, {0: to}, tier="t" if n in th else "q", cost=n)
for n in range(5):
    for m in range(3):
        J("search-%d-%d" % (n, m), "h_search", {0: S(n), 1: S(m)}, {}, cost=1)

p = Prop("P26", "fs_h.cpp",
         "paths of up to 5 segments of up to 3 arbitrary bytes other than '/' (5 in a single segment; thorough: longer), absolute and relative; the paths of all references of up to 5 (thorough: 7) arbitrary bytes",
         covers=("absolute", "relative"),
         assumptions=("std::filesystem::path is a stub in the encoding: its text, with append as the C++ standard defines it on POSIX; it is compared with libstdc++'s on the replayed models",))
for ab in (0, 1):
    for nm, segs, tier in (("0", (), "q"), ("e", ("",), "q"), ("ee", ("", ""), "q"), ("eee", ("", "", ""), "q"), ("1", (S(1),), "q"), ("3", (S(3),), "q"), ("5", (S(5),), "q"), ("2-2", (S(2), S(2)), "q"),
                           ("1-e", (S(1), ""), "q"), ("e-1", ("", S(1)), "q"), ("1-e-1", (S(1), "", S(1)), "q"), ("e-1-e-1-e", ("", S(1), "", S(1), ""), "q"), ("3-3-3", (S(3), S(3), S(3)), "q"),
                           ("1-1-1-1-1", (S(1),) * 5, "q"), ("2-1-e-3", (S(2), S(1), "", S(3)), "q"), ("dots", (L(".."), S(2), L("."), S(1)), "q"), ("8", (S(8),), "t"), ("4x4", (S(4),) * 4, "t"), ("1x9", (S(1),) * 9, "t")):
        p.job("segments%d-%s" % (ab, nm), "h_filesystem", {k: t for k, t in enumerate(segs)}, {0: len(segs), 1: ab}, tier=tier, cost=len(segs))
for n in range(8):
    p.job("split-%d" % n, "h_filesystem_split", {0: S(n)}, {}, tier="t" if n > 5 else "q", cost=4 ** n / 64)
