from jobs import *  # noqa: F403
import jobs as J

# ------------------------------------------------------------------ whole strings
# templates of (name, tokens, tier, cost): a literal skeleton with fully symbolic bytes in it
HEXISH = "0123456789abcdefABCDEF:.gG]"


def strings(pref, quick_n, thorough_n):
    out = []
    for n in range(0, thorough_n + 1):
        out.append(("any%d" % n, S(n), "q" if n <= quick_n else "t", 3 ** n / 1000.0))
    return out


URI_T = [
    ("auth", seq(L("s://"), S(5)), "q", 30),
    ("auth6", seq(L("s://"), S(6)), "t", 90),
    ("user", seq(L("s://u"), S(2), L("@h"), S(3)), "q", 30),
    ("port", seq(L("s://h:8"), S(4)), "q", 20),
    ("path", seq(L("s://h/"), S(5)), "q", 20),
    ("rootless", seq(L("s:a"), S(5)), "q", 20),
    ("query", seq(L("s:?"), S(5)), "q", 20),
    ("queryfrag", seq(L("s:/a?q"), S(2), L("#"), S(3)), "q", 20),
    ("frag", seq(L("s:#"), S(5)), "q", 20),
    ("pct", seq(L("s:%"), S(2), L("%"), S(3)), "q", 20),
    ("scheme", seq(S(4), L(":")), "q", 5),
    ("scheme2", seq(L("ab"), S(3), L("://h")), "q", 5),
    ("ipv4", seq(L("s://1"), C(4, "0123456789.a:/@"), L(".1.1")), "q", 20),
    ("ipv4b", seq(L("s://2.3.4."), S(4)), "q", 20),
    ("v6", seq(L("s://["), S(4), L("]"), S(1)), "q", 30),
    ("v6b", seq(L("s://[1:2::"), S(3), L("]:8"), S(2)), "q", 30),
    ("vf", seq(L("s://[v"), S(4), L("]"), S(1)), "q", 20),
    ("dslash", seq(L("s:"), C(6, "/?#:@a%")), "q", 20),
    ("struct8", seq(L("s:"), C(7, "/?#:@a[")), "t", 60),
]
REF_T = [
    ("nsauth", seq(L("//"), S(5)), "q", 30),
    ("nsuser", seq(L("//u"), S(2), L("@h"), S(3)), "q", 30),
    ("nsport", seq(L("//h:"), S(4)), "q", 20),
    ("nspath", seq(L("//h/"), S(4)), "q", 20),
    ("abs", seq(L("/"), S(5)), "q", 20),
    ("rel", seq(L("a"), S(4), L("/b"), S(1)), "q", 20),
    ("rel2", seq(L("./"), S(4)), "q", 20),
    ("q", seq(L("?"), S(5)), "q", 20),
    ("f", seq(L("#"), S(5)), "q", 20),
    ("pq", seq(S(2), L("?"), S(2), L("#"), S(2)), "q", 20),
    ("nsv6", seq(L("//["), S(4), L("]")), "q", 30),
    ("struct", C(6, "/?#:@a%1"), "q", 20),
]


def literals(tails=True):
    """IPv6 addresses around every number of groups before and after '::', with and without a dotted quad at the end"""
    out = []
    for a in range(0, 8):
        for b in range(0, 9 - a):
            if a + b < 4 and (a, b) not in ((0, 0), (1, 1), (0, 1), (1, 0)):
                continue
            for q in (0, 1) if tails and b else (0,):
                after = ["2"] * (b - 2 * q) + ["1.2.3.4"] if q and b >= 2 else ["2"] * b
                if q and b < 2:
                    continue
                out.append(("ip%d-%d%s" % (a, b, "q" if q else ""), seq(L("[" + ":".join(["1"] * a)), C(2, ":1"), L(":".join(after) + "]"))))
    for g in (6, 7, 8, 9):
        out.append(("ipg%d" % g, seq(L("[" + ":".join(["1"] * (g - 1))), C(1, ":1g"), L("2]"))))
        if g > 2:
            out.append(("ipgq%d" % g, seq(L("[" + ":".join(["1"] * (g - 2))), C(1, ":1g"), L("1.2.3.4]"))))
    return out


LIT_T = [(nm, seq(L("s://"), t), "q", 0.5) for nm, t in literals()]
OCT_T = [("oct%d" % i, seq(L("s://[::" + "1." * i), C(3, "0123456789"), L(".1" * (3 - i) + "]")), "q", 3) for i in range(4)]
OCT_T += [("vfh%d" % k, seq(L("s://[v"), C(k, "0aFg."), L(".x:"), S(1), L("]")), "q", 1) for k in (0, 1, 2)]
MORE_T = [
    ("chars-user", seq(L("s://"), S(1), L("@h")), "q", 1), ("chars-segment", seq(L("s:a"), S(1), L("/"), S(1), L("/b")), "q", 1),
    ("chars-host", seq(L("s://a"), S(1), L("b/")), "q", 1), ("long-scheme", seq(L("a1+-."), S(2), L("://h")), "q", 1),
    ("long-escapes", seq(L("s://u%41%"), S(2), L("@h%"), S(2), L(":80/%2f%"), S(2), L("?%"), S(1), L("0#%0"), S(1)), "q", 10),
    ("user-colons", seq(L("s://a:b"), S(1), L("c"), S(1), L("@h:1")), "q", 2), ("port-long", seq(L("s://h:12345"), S(3), L("/p")), "q", 2),
    ("no-host", seq(L("s://"), S(1), L("@"), S(1), L(":"), S(1)), "q", 2), ("slashes", seq(L("s:///"), C(4, "/a:@?#[")), "q", 4),
    ("tail", seq(L("s:a?"), C(3, "/?:@#%["), L("#"), C(3, "/?:@#%[")), "q", 10),
]
URI_T = URI_T + LIT_T + OCT_T + MORE_T
REF_T = REF_T + [("r-" + nm, seq(L("//"), t), "q", 0.5) for nm, t in literals(False) if nm[2] in "g0357"]
REF_T = REF_T + [("seg-nc", seq(L("a"), S(2), L("b/c"), S(1)), "q", 3), ("colon-later", seq(L("./a"), S(1), L(":"), S(1)), "q", 2), ("first", seq(S(1), L("b"), S(1), L("c")), "q", 3),
                 ("r-slashes", seq(L("//"), C(4, "/a:@?#[")), "q", 4), ("r-tail", seq(C(1, "a/?"), L("?"), C(3, "/?:@#%["), L("#"), C(2, "/?:@#%[")), "q", 10)]

p = Prop("P01", "uri_h.cpp", "every string of at most 6 bytes (8 thorough), and every completion of the listed skeletons with up to 6 further fully symbolic bytes", ["accepted", "rejected"])
for n, t, tier, c in strings("", 6, 8) + URI_T:
    p.job(n, "h_accept_uri", {0: t}, tier=tier, cost=c)
p = Prop("P02", "uri_h.cpp", "every string of at most 6 bytes (7 thorough), and every completion of the listed skeletons", ["accepted", "rejected", "uri"])
for n, t, tier, c in strings("", 5, 7) + URI_T + REF_T:
    p.job(n, "h_accept_ref", {0: t}, tier=tier, cost=c)
for n, t, tier, c in strings("", 5, 7) + URI_T:
    p.job("agree-" + n, "h_ref_agrees", {0: t}, tier=tier, cost=c)
SHAPE_COVERS = ["authority", "userinfo", "port", "empty port", "empty host", "absolute path", "relative path", "several segments", "query", "fragment"]
p = Prop("P03", "uri_h.cpp", "every string of at most 5 bytes (7 thorough), and every completion of the listed skeletons", SHAPE_COVERS)
for n, t, tier, c in strings("", 5, 7) + URI_T:
    p.job("uri-" + n, "h_components", {0: t}, {0: 0}, tier=tier, cost=c)
for n, t, tier, c in strings("", 5, 7) + REF_T:
    p.job("ref-" + n, "h_components", {0: t}, {0: 1}, tier=tier, cost=c)
p = Prop("P04", "uri_h.cpp", "every string of at most 5 bytes (7 thorough), and every completion of the listed skeletons", SHAPE_COVERS + ["rejected"])
for n, t, tier, c in strings("", 5, 7) + URI_T:
    p.job("uri-" + n, "h_compose_split", {0: t}, {0: 0}, tier=tier, cost=c)
for n, t, tier, c in strings("", 5, 7) + REF_T:
    p.job("ref-" + n, "h_compose_split", {0: t}, {0: 1}, tier=tier, cost=c)
