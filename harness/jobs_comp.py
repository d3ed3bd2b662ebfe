"""P05, P06, P07, P08, P22, P23, P25: components, resolution, equality, literals, case."""
from jobs import Prop, L, S, C, seq
from jobs_uri import URI_T, REF_T, SHAPE_COVERS, strings, literals

SCHEME1, AUTH, USER, PORT, ABS, QUERY, FRAG = 1, 2, 4, 8, 16, 32, 64
ALL = 127
ONE = {1: S(1), 2: S(1), 3: S(1), 4: S(1), 5: S(1), 6: S(1)}


def comps(shape=S(1), base=0, **kw):
    """inputs of build(): names scheme user host port query frag seg0.. seg3"""
    d = {"scheme": S(1), "user": S(1), "host": S(1), "port": S(1), "query": S(1), "frag": S(1)}
    d.update(kw)
    out = {base: shape}
    for i, n in enumerate(["scheme", "user", "host", "port", "query", "frag"]):
        out[base + 1 + i] = d[n]
    for k, v in d.items():
        if k.startswith("seg"):
            out[base + 7 + int(k[3:])] = v
    return out


def sh(free, fixed, nseg):
    return {0: free, 1: fixed, 2: nseg}


# ---------------------------------------------------------------- P05
p = Prop("P05", "uri_h.cpp", "all 128 presence combinations of the components with up to 3 path segments (4 thorough), each component at most one arbitrary byte (two for one of them at a time, more for single components)", SHAPE_COVERS)
for n in range(0, 4):
    p.job("all-%dseg" % n, "h_split_compose", comps(**{"seg%d" % i: S(1) for i in range(n)}), sh(ALL, 0, n), cost=10 + n)
    p.job("empty-%dseg" % n, "h_split_compose", comps(user="", host="", port="", query="", frag="", **{"seg%d" % i: "" for i in range(n)}), sh(ALL, 0, n), cost=2)
p.job("all-4seg", "h_split_compose", comps(**{"seg%d" % i: S(1) for i in range(4)}), sh(ALL, 0, 4), tier="t", cost=60)
for nm, kw, fixed, n in [
        ("scheme", {"scheme": S(4)}, SCHEME1, 1),
        ("user", {"user": S(4)}, SCHEME1 | AUTH | USER, 0),
        ("host", {"host": S(5)}, SCHEME1 | AUTH, 0),
        ("hostlit", {"host": seq(L("["), S(3), L("]"))}, SCHEME1 | AUTH, 0),
        ("port", {"port": S(4)}, AUTH | PORT, 0),
        ("query", {"query": S(4)}, QUERY, 1),
        ("frag", {"frag": S(4)}, FRAG, 1),
        ("seg", {"seg0": S(3)}, 0, 2),
        ("seg-last", {"seg0": S(1), "seg1": S(3)}, 0, 2)]:
    kw = dict(kw)
    for i in range(n):
        kw.setdefault("seg%d" % i, S(1))
    e = {"user": "", "port": "", "query": "", "frag": "", "host": S(1)}
    e.update(kw)
    p.job("long-" + nm, "h_split_compose", comps(**e), sh(ALL & ~fixed, fixed, n), cost=20)

for nm, t in literals():
    p.job("host-" + nm, "h_split_compose", comps(host=t, scheme=L("s"), user="", port="", query="", frag=""), sh(0, SCHEME1 | AUTH, 0), cost=0.5)
for n in (1, 2, 3, 4):
    for absolute in (0, 1):
        p.job("auth-path-%d-%d" % (absolute, n), "h_split_compose", comps(scheme="", user="", host=S(1), port="", query="", frag="", **{"seg%d" % i: "" if i % 2 == 0 else S(2) for i in range(n)}), sh(SCHEME1, AUTH | ABS * absolute, n), cost=3)
# ---------------------------------------------------------------- P06
p = Prop("P06", "uri_h.cpp", "all presence combinations with arbitrary bytes: one byte per component together, up to 6 bytes (8 thorough) for each component alone; strings of at most 5 bytes and the listed skeletons for 'split implies valid'", ["valid", "invalid", "split", "rejected"])
for n in range(0, 3):
    p.job("all-%dseg" % n, "h_valid", comps(**{"seg%d" % i: S(1) for i in range(n)}), sh(ALL, 0, n), cost=10 + n)
for k in (0, 1, 2, 3, 4, 5, 6, 7, 8):
    t = "q" if k <= 6 else "t"
    p.job("scheme%d" % k, "h_valid", comps(scheme=S(k)), sh(0, SCHEME1, 0), tier=t, cost=k)
    p.job("user%d" % k, "h_valid", comps(user=S(k), host=L("h")), sh(0, SCHEME1 | AUTH | USER, 0), tier=t, cost=k * 2)
    p.job("host%d" % k, "h_valid", comps(host=S(k)), sh(0, SCHEME1 | AUTH, 0), tier=t, cost=k * 3)
    p.job("port%d" % k, "h_valid", comps(port=S(k), host=""), sh(0, SCHEME1 | AUTH | PORT, 0), tier=t, cost=k)
    p.job("seg%d" % k, "h_valid", comps(seg0=L("a"), seg1=S(k)), sh(0, SCHEME1 | ABS, 2), tier=t, cost=k * 2)
    p.job("query%d" % k, "h_valid", comps(query=S(k)), sh(0, SCHEME1 | QUERY, 0), tier=t, cost=k * 2)
    p.job("frag%d" % k, "h_valid", comps(frag=S(k)), sh(0, SCHEME1 | FRAG, 0), tier=t, cost=k * 2)
for nm, h in [("lit", seq(L("["), S(5), L("]"))), ("lit6", seq(L("[1::"), S(4), L("]"))), ("v4", seq(L("1.2.3."), S(4))), ("v4b", seq(S(4), L(".2.3.4"))), ("vf", seq(L("[v"), S(4), L("]"))), ("open", seq(L("["), S(5))), ("pct", seq(S(2), L("%"), S(3)))]:
    p.job("host-" + nm, "h_valid", comps(host=h), sh(0, SCHEME1 | AUTH, 0), cost=20)
for nm, t in literals():
    p.job("host-" + nm, "h_valid", comps(host=t), sh(0, SCHEME1 | AUTH, 0), cost=0.5)
for n, t, tier, c in strings("", 5, 7) + URI_T:
    p.job("split-" + n, "h_split_valid", {0: t}, tier=tier, cost=c)

# ---------------------------------------------------------------- P07
p = Prop("P07", "join_h.cpp", "every base and reference built from the listed skeletons with up to 8 symbolic bytes together, of which up to 7 are arbitrary, in strict and non-strict mode", ["reference with scheme", "reference with authority", "empty reference path", "absolute reference path", "merged", "merged onto a rootless path", "same scheme ignored", "nothing"])
PC = "/.a?#"
for strict in (1, 0):
    s_ = "strict-" if strict else "lax-"
    for nm, b, r, tier, c in [
            ("auth-any", seq(L("s://h"), S(3)), S(3), "q", 5),
            ("auth-any4", seq(L("s://h"), S(3)), S(4), "q", 20),
            ("opaque", seq(L("s:"), S(3)), S(3), "q", 5),
            ("abs", seq(L("s:/"), S(3)), S(3), "q", 5),
            ("full", L("s://u@h:1/a/b?q#f"), S(5), "q", 10),
            ("full6", L("s://u@h:1/a/b?q#f"), S(6), "t", 10),
            ("deep", seq(L("s://h/"), C(4, PC)), C(5, PC), "q", 30),
            ("deep-t", seq(L("s://h/"), C(5, PC)), C(6, PC), "t", 30),
            ("dots", seq(L("s://h/a/b"), C(2, PC)), seq(L("../"), C(4, PC)), "q", 10),
            ("dots2", seq(L("s:/"), C(3, PC)), seq(L("./"), C(4, PC)), "q", 10),
            ("rootless", seq(L("s:"), C(3, PC)), C(5, PC), "q", 30),
            ("nsauth", seq(L("s://h/"), S(2)), seq(L("//"), S(4)), "q", 10),
            ("scheme", seq(S(1), L("://h/"), S(1)), seq(S(1), L(":"), S(3)), "q", 10),
            ("scheme-nsauth", seq(S(1), L("://h/b?q")), seq(S(1), L("://"), S(3)), "q", 10),
            ("scheme2", seq(S(2), L("://h/b")), seq(S(2), L(":"), C(3, PC)), "q", 10),
            ("query", seq(L("s://h/a?"), S(3)), seq(L("?"), S(3)), "q", 10),
            ("frag", seq(L("s://h/a?q#"), S(2)), seq(L("#"), S(3)), "q", 10),
            ("auth-t", seq(L("s://h"), S(4)), S(4), "t", 60)]:
        p.job(s_ + nm, "h_join_parts", {0: b, 1: r}, {0: strict}, tier=tier, cost=c)
    for nm, b, r, tier, c in [
            ("any22", S(2), S(2), "q", 1), ("any31", S(3), S(1), "q", 1), ("any13", S(1), S(3), "q", 1),
            ("s", seq(L("s:"), S(2)), S(2), "q", 10),
            ("auth", seq(L("s://h"), S(2)), S(2), "q", 10),
            ("rel", seq(L("s://h/a")), S(3), "q", 10),
            ("s-t", seq(L("s:"), S(3)), S(3), "t", 100),
            ("auth-t", seq(L("s://h"), S(3)), S(3), "t", 100)]:
        p.job("str-" + s_ + nm, "h_join", {0: b, 1: r}, {0: strict}, tier=tier, cost=c)

# ---------------------------------------------------------------- P08
p = Prop("P08", "join_h.cpp", "every path of at most 9 arbitrary bytes after the leading '/' (10 thorough), and of at most 11 bytes from the set '/', '.', 'a' (14 thorough); relative paths likewise", ["dot segments", "no dot segment", "relative with dot segments", "relative without"])
for k in range(0, 11):
    t = "q" if k <= 9 else "t"
    p.job("abs%d" % k, "h_dots_absolute", {0: S(k)}, tier=t, cost=2 ** k / 100)
    p.job("rel%d" % k, "h_dots_relative", {0: S(k)}, tier=t, cost=2 ** k / 100)
for k in (10, 11, 12, 13, 14):
    t = "q" if k <= 11 else "t"
    p.job("abs-dots%d" % k, "h_dots_absolute", {0: C(k, "/.a")}, tier=t, cost=2 ** k / 100)
    p.job("rel-dots%d" % k, "h_dots_relative", {0: C(k, "/.a")}, tier=t, cost=2 ** k / 100)

# ---------------------------------------------------------------- P22
p = Prop("P22", "uri_h.cpp", "every pair of structures over all presence combinations with up to 2 path segments each and at most one arbitrary byte per component (longer single components listed), and triples with fewer parts", ["equal", "unequal"])


def two(a, b, na, nb):
    d = dict(a)
    d.update(b)
    return d


EMPTY = {"user": "", "port": "", "scheme": "", "query": "", "frag": ""}


def sh2(free, fixed, *n):
    d = {0: free, 1: fixed}
    for i, x in enumerate(n):
        d[2 + i] = x
    return d


for nm, free, fixed in [("auth", SCHEME1 | AUTH | USER | PORT, 0), ("path-auth", ABS | AUTH | QUERY, SCHEME1), ("tail", QUERY | FRAG | SCHEME1 | ABS, AUTH), ("tail-noauth", QUERY | FRAG | ABS | USER, 0)]:
    a = comps(base=0, host=S(1), **dict(EMPTY, seg0=S(1)))
    b = comps(base=20, host=S(1), **dict(EMPTY, seg0=S(1)))
    p.job("presence-" + nm, "h_equality", two(a, b, 1, 1), sh2(free, fixed, 1, 1), cost=10)
for n in range(0, 4):
    for m in range(n, 4):
        a = comps(base=0, host="", **dict(EMPTY, **{"seg%d" % i: S(1) for i in range(n)}))
        b = comps(base=20, host="", **dict(EMPTY, **{"seg%d" % i: S(1) for i in range(m)}))
        p.job("path-%d-%d" % (n, m), "h_equality", two(a, b, n, m), sh2(ABS | AUTH, 0, n, m), tier="q" if m <= 2 else "t", cost=10)
for nm, kw in [("one", dict(EMPTY, host=S(1), seg0=S(1), query=S(1))), ("two", dict(EMPTY, host=S(1), user=S(1), seg0="", frag=S(1)))]:
    d = {}
    for base in (0, 20, 40):
        d.update(comps(base=base, **kw))
    p.job("triple-" + nm, "h_equality_trans", d, sh2(ABS | AUTH | (QUERY if nm == "one" else FRAG), USER, 1, 1, 1), cost=20)
for nm, kw1, kw2, fixed in [
        ("scheme", {"scheme": S(2)}, {"scheme": S(2)}, SCHEME1), ("scheme-len", {"scheme": S(2)}, {"scheme": S(1)}, SCHEME1),
        ("user", {"user": S(2)}, {"user": S(2)}, AUTH | USER), ("user-len", {"user": S(2)}, {"user": S(1)}, AUTH | USER),
        ("host", {"host": S(3)}, {"host": S(3)}, AUTH), ("host-len", {"host": S(3)}, {"host": S(2)}, AUTH),
        ("port", {"port": S(2)}, {"port": S(2)}, AUTH | PORT), ("port-len", {"port": S(1)}, {"port": S(2)}, AUTH | PORT),
        ("query", {"query": S(2)}, {"query": S(2)}, QUERY), ("query-len", {"query": S(1)}, {"query": S(2)}, QUERY),
        ("frag", {"frag": S(2)}, {"frag": S(2)}, FRAG), ("frag-len", {"frag": S(1)}, {"frag": S(2)}, FRAG)]:
    base = {"user": "", "host": "", "port": "", "scheme": L("s"), "query": "", "frag": ""}
    a, b = dict(base), dict(base)
    a.update(kw1)
    b.update(kw2)
    p.job("long-" + nm, "h_equality", two(comps(base=0, **a), comps(base=20, **b), 0, 0), sh2(ABS | QUERY & ~fixed, fixed, 0, 0), cost=10)

# ---------------------------------------------------------------- P23
p = Prop("P23", "uri_h.cpp", "every text between brackets of at most 7 arbitrary bytes (8 thorough), of at most 8 bytes from the set '1', 'a', ':', '.', 'g' (10 thorough), and every completion of the listed IPv6 / IPvFuture skeletons, which reach all eight groups and the dotted-quad tail", ["ip literal", "not an ip literal"])
for k in range(0, 9):
    p.job("any%d" % k, "h_ip_literal", {0: S(k)}, tier="q" if k <= 6 else "t", cost=2 ** k)
for k in range(5, 11):
    p.job("v6set%d" % k, "h_ip_literal", {0: C(k, "1a:.g")}, tier="q" if k <= 8 else "t", cost=2 ** k)
for i in range(1, 9):
    # i groups in front, then free bytes: the end of the address, '::' and the dotted quad at every position
    pre = "1:" * (i - 1) + "1"
    p.job("groups%d" % i, "h_ip_literal", {0: seq(L(pre), C(4, "1:.fG"))}, cost=10)
    p.job("groups%d-t" % i, "h_ip_literal", {0: seq(L(pre), C(7, "1:.f"))}, tier="t", cost=60)
    p.job("before%d" % i, "h_ip_literal", {0: seq(C(4, "1:.f"), L(":1" * (i - 1)))}, cost=10)
    p.job("dd%d" % i, "h_ip_literal", {0: seq(L("1:" * (i - 1)), C(2, "1:"), L("1.2.3."), C(2, "12a:."))}, cost=10)
    p.job("ddafter%d" % i, "h_ip_literal", {0: seq(L("::" + "f:" * (i - 1)), C(2, "1:"), L("1.2.3."), S(1))}, cost=10)
for a in range(0, 8):
    for b in range(0, 8 - a + 1):
        # '::' with a groups before and b after, one byte of every group symbolic at the seam
        l = ":".join(["1"] * a) + "::" + ":".join(["2"] * b)
        p.job("seam%d-%d" % (a, b), "h_ip_literal", {0: seq(L(":".join(["1"] * a)), C(2, ":1"), L(":".join(["2"] * b)), C(1, ":1.g"))}, cost=2)
p.job("octet3", "h_ip_literal", {0: seq(L("::"), C(3, "0123456789a"), L(".0.1.2"))}, cost=10)
p.job("octet3b", "h_ip_literal", {0: seq(L("::1.2.3."), C(4, "0123456789a"))}, cost=10)
p.job("octet-mid", "h_ip_literal", {0: seq(L("::1."), C(4, "0123456789."), L(".3"))}, cost=10)
p.job("group5", "h_ip_literal", {0: seq(L("1::"), S(5))}, cost=10)
p.job("group-first", "h_ip_literal", {0: seq(S(5), L("::1"))}, cost=10)
p.job("vf", "h_ip_literal", {0: seq(L("v"), S(5))}, cost=10)
p.job("vf2", "h_ip_literal", {0: seq(L("vF1."), S(4))}, cost=10)
p.job("vf3", "h_ip_literal", {0: seq(S(1), L("1"), S(1), L("a:"), S(2))}, cost=10)

# ---------------------------------------------------------------- P25
p = Prop("P25", "uri_h.cpp", "every string of at most 5 bytes (6 thorough) and every completion of the listed skeletons", SHAPE_COVERS + ["rejected"])
for n, t, tier, c in strings("", 4, 6) + URI_T:
    p.job("uri-" + n, "h_case", {0: t}, {0: 0}, tier=tier, cost=c)
for n, t, tier, c in strings("", 4, 6) + REF_T:
    p.job("ref-" + n, "h_case", {0: t}, {0: 1}, tier=tier, cost=c)
LET = "aAfFgGzZvV:.%1"
for n, t in [("v6", seq(L("s://["), C(4, "aAfFgG:"), L("::]"))), ("vf", seq(L("s://["), C(1, "vVwW"), C(2, "aAfFgG."), L(".x]"))), ("pct", seq(L("s:%"), C(2, "aAfFgG0"), L("?%"), C(2, "aAfFgG0"))), ("scheme", seq(C(3, "azAZ+1"), L("://"), C(2, "azAZ"))), ("pcthost", seq(L("s://%"), C(2, "aAfFgG0"), C(2, "azAZ")))]:
    p.job("letters-" + n, "h_case", {0: t}, {0: 0}, cost=10)
