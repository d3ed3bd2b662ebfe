"""P14, P15: encoding and decoding components into a store."""
from jobs import Prop, L, S, C, seq

SCHEME, USERINFO, HOST, PORT, QUERY, FRAGMENT = range(6)
NAMES = ("scheme", "userinfo", "host", "port", "query", "fragment")
ALNUM = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-."
DIGITS = b"0123456789"


def job(p, nm, entry, comp, segs=(), absolute=1, null=0, string=0, full=0, tier="q", cost=1):
    """comp: kind -> token"""
    comp = dict(comp)
    bits = sum(1 << k for k in comp)
    if bits & (1 << USERINFO | 1 << PORT):
        comp.setdefault(HOST, "")
    ins = {k: t for k, t in comp.items()}
    for k, t in enumerate(segs):
        ins[10 + k] = t
    p.job(nm, entry, ins, {0: bits, 1: len(segs), 2: absolute, 3: null, 4: string, 5: full}, tier=tier, cost=cost)


def tok(k, n):
    return C(n, ALNUM) if k == SCHEME else C(n, DIGITS) if k == PORT else S(n)


FREE = (USERINFO, QUERY, FRAGMENT)
LIT = {SCHEME: L("s"), USERINFO: L("u%"), HOST: L(b"b\xc3\xbc.de"), PORT: L("80"), QUERY: L("q"), FRAGMENT: L("f ")}
DLIT = {SCHEME: L("s"), USERINFO: L("u%25"), HOST: L("xn--b-xga.de"), PORT: L("80"), QUERY: L("q"), FRAGMENT: L("f%20")}


def many(n, free, lit):
    """n segments, those whose index is in free of one (or the given number of) free bytes"""
    return [free[k] if k in free else lit[k % len(lit)] for k in range(n)]


def common(p, entry, lits, lit_segs, wide):
    # every combination of components, with one free byte in each
    for bits in range(64):
        comp = {k: lits[HOST] if k == HOST else tok(k, 1) for k in range(6) if bits >> k & 1}
        for segs in ((), (S(1), S(1))):
            job(p, "set%02d-%d" % (bits, len(segs)), entry, comp, segs, absolute=bits & 1, string=bits >> 1 & 1, full=bits >> 2 & 1, cost=2 ** (len(comp) + len(segs)) / 16)
    # each component at greater length, among literal ones
    for k in (SCHEME, USERINFO, PORT, QUERY, FRAGMENT):
        for n in (0, 2, wide):
            job(p, "%s-%d" % (NAMES[k], n), entry, dict(lits, **{}) | {k: tok(k, n)}, (lit_segs[0],), cost=2 ** n / 10)
        job(p, "%s-%d" % (NAMES[k], wide + 2), entry, dict(lits) | {k: tok(k, wide + 2)}, (lit_segs[0],), tier="t", cost=2 ** wide)
    job(p, "segment-%d" % wide, entry, lits, (S(wide),), cost=2 ** wide / 10)
    job(p, "segments-222", entry, {}, (S(2), S(2), S(2)), absolute=0, cost=10)
    job(p, "segments-303", entry, {QUERY: S(1)}, (S(3), "", S(3)), cost=10)
    job(p, "wide", entry, {USERINFO: S(2), HOST: "", QUERY: S(2), FRAGMENT: S(2)}, (S(2),), cost=10)
    job(p, "wider", entry, {USERINFO: S(3), HOST: "", QUERY: S(2), FRAGMENT: S(3)}, (S(3),), tier="t", cost=60)
    # many segments
    for n in (24, 25, 26, 27, 28, 33, 40):
        for nm, lit in (("plain", ["", L("b"), L("a")]), ("mixed", lit_segs)):
            last = {k: S(1) for k in {0, 20, 24, 25, 26, 27, n - 1} if k < n}
            job(p, "many%d-%s" % (n, nm), entry, lits if n & 1 else {QUERY: S(1)}, many(n, last, lit), cost=30)
    # components that are null views
    for k in range(6):
        job(p, "null-%s" % NAMES[k], entry, {i: lits[HOST] if i == HOST else tok(i, 1) for i in range(6)}, (S(1),), null=1 + k, cost=4)
    for k in range(3):
        job(p, "null-segment%d" % k, entry, {QUERY: S(1)}, (S(1), S(1), S(1)), null=7 + k, cost=2)
    job(p, "null-many", entry, {QUERY: S(1)}, many(28, {k: S(1) for k in (0, 24, 25, 26, 27)}, lit_segs), null=7 + 5, cost=10)


def hosts(p, entry):
    def h(nm, t, cost, tier="q"):
        job(p, "host-" + nm, entry, {USERINFO: L("u "), HOST: t}, (L("s"),), tier=tier, cost=cost)
    for n in (0, 1, 2):
        h("any%d" % n, S(n), n * 10)
    h("a-2", seq(L("a"), S(2)), 20)
    h("2-a", seq(S(2), L("a")), 20)
    h("dots", C(4, b".a"), 2)
    h("labels", seq(L("b"), S(2), L("c."), C(1, b".a\xc3"), C(1, b"\x80\xbfz")), 10)
    h("first", seq(S(2), L(".de")), 20)
    h("second", seq(L("www."), S(2)), 20)
    h("two", seq(C(1, b"\xc3\xd0"), C(1, range(0x80, 0xC0)), L("."), C(1, b"\xc3a"), C(1, b"\x80\xbfz")), 20)
    h("three", seq(L(b"\xe4"), C(1, range(0x80, 0xC0)), C(1, range(0x80, 0xC0)), L("x")), 40)
    h("four", seq(L(b"x.\xf0\x9f"), C(1, b"\x80\x98\x99\xbf"), C(1, range(0x80, 0xC0))), 40)
    h("trailing", seq(L(b"a\xc3\xbc"), C(2, b".b")), 2)
    h("xn", seq(L("xn-"), S(2)), 2)
    h("3", S(3), 600, "t")


p = Prop("P14", "parts_h.cpp", "every combination of components with one free byte each; each component at up to 7 bytes (9 thorough) among literal ones, four components of two free bytes; hosts of up to two free bytes and the listed "
         "longer ones (free code points of two, three and four bytes, several labels); 24 to 40 path segments; null views; std::vector and std::string stores", ["as it was", "encoded", "host encoded"],
         assumptions=["scheme: letters, digits, '+', '-', '.'; port: digits; host: valid UTF-8 without labels that begin with 'xn--'", "the encode set of each component is the library's (userinfo, path, query, fragment), as P10 states them"])
common(p, "h_encode_decode", LIT, [L("a b"), L("%"), L("c"), ""], 7)
hosts(p, "h_encode_decode")

p = Prop("P15", "parts_h.cpp", "encoding: as P14, with arbitrary bytes in every component; decoding: every combination of components with one free byte each, each component at up to 5 bytes (7 thorough) among literal ones, "
         "hosts with labels of 'xn--' and up to three free bytes and the listed ones, 24 to 40 path segments; null views; std::vector and std::string stores, short and long beforehand", ["unchanged", "stored", "malformed host"])
common(p, "h_store_encode", LIT, [L("a b"), L("%"), L("c"), ""], 6)
hosts(p, "h_store_encode")
for j in p.p["jobs"]:
    j["name"] = "enc-" + j["name"]
n0 = len(p.p["jobs"])
common(p, "h_store_decode", DLIT, [L("a%20b"), L("%41"), L("c"), L("%4")], 5)
E2 = lambda *t: seq(*t)
def h(nm, t, cost=1, tier="q"):
    job(p, "host-" + nm, "h_store_decode", {USERINFO: seq(L("u%"), S(2)), HOST: t}, (L("s"),), tier=tier, cost=cost)
for n in range(0, 6):
    h("any%d" % n, S(n), n)
for n in range(0, 4):
    h("xn%d" % n, seq(L("xn--"), S(n)), 10 ** n / 100)
h("xn4", seq(L("xn--"), C(4, "ab9-.")), 40)
h("prefix", seq(C(4, "xXn-"), L("bcher-kva")), 5)
h("bucher", seq(L("xn--bcher-"), S(2)), 5)
h("bucher2", seq(L("www.xn--bcher-k"), C(2, "va9.z-"), L(".example")), 5)
h("bucher2-any", seq(L("www.xn--bcher-kv"), S(1), L(".example")), 5)
h("two", seq(L("xn--bcher-kva."), C(2, "xn.a"), L("n--"), S(2)), 20)
h("second", seq(L("xn--"), S(2), L(".xn--"), S(1)), 10)
h("dots", C(6, ".x"), 2)
h("empty-labels", seq(L("xn--"), C(1, ".a-"), L("xn--"), C(1, ".a-")), 3)
h("overflow", seq(L("xn--999999"), C(1, "9a."), C(1, "9a.")), 10)
h("overflow-any", seq(L("xn--99999999999"), S(1)), 10)
h("utf8", seq(L("xn--"), C(2, "ts9-z"), L("h"), C(1, "az9")), 10)
for j in p.p["jobs"][n0:]:
    j["name"] = "dec-" + j["name"]
