"""Long inputs, for every property: a literal unit repeated a number of times that is part of the input, among free bytes.
What depends on a length, a count or a position beyond what the free bytes alone reach shows here."""
from jobs import PROPS, L, S, C, R, describe, seq
from jobs_comp import comps, sh, SCHEME1, AUTH, USER, PORT, ABS, QUERY, FRAG
from jobs_icu import ENC, W, hx
import jobs_enc
import jobs_parts as JP
import jobs_rule

CH = "0-72;126-130;254-258"       # lengths of texts
SEG = "0-34;63-65;127-129"        # numbers of pieces
FEW = "0-20;31-33;64"
BIG = "511-513;1023-1025"


def job(pid, name, entry, inputs, params=None, harness=None, **kw):
    p = PROPS[pid]
    h = harness or p["jobs"][0]["harness"]
    p["jobs"].append(dict({"name": "long-" + name, "entry": entry, "inputs": inputs, "params": params or {}, "tier": "q", "cost": 8, "ub": False, "samples": 24,
                           "solver_ms": 120000, "flags": [], "harness": h, "supersedes": None, "bound": describe(inputs)}, **kw))


# ---------------------------------------------------------------- texts of URIs
X = lambda c=CH: R(c, L("x"))
TAIL = [  # after a scheme or not
    ("user", seq(L("//u"), X(), S(1), L("@h/p"))), ("host", seq(L("//h"), X(), S(1), L("/p"))), ("port", seq(L("//h:"), R(CH, L("1")), S(1), L("/p"))),
    ("segment", seq(L("/"), X(), S(1), L("/y"))), ("rootless", seq(L("a"), R(SEG, L("/b")), S(1), L("c"))), ("segments", seq(L("//h"), R(SEG, L("/a")), S(1), L("b?q"))),
    ("empties", seq(L("//h"), R(SEG, L("/")), S(1))), ("query", seq(L("a?"), X(), S(1), L("#f"))), ("marks", seq(L("?"), R(FEW, L("?/")), S(1))), ("fragment", seq(L("a#"), X(), S(1))),
    ("escapes", seq(L("a"), R("0-34;64", L("%4a")), S(1), L("1"))), ("user-escapes", seq(L("//"), R(FEW, L("%C3")), S(1), L("@h"))), ("host-escapes", seq(L("//"), R(FEW, L("%C3")), S(1), L(":1"))),
    ("colons", seq(L("//a"), R(FEW, L(":b")), S(1), L("c@h"))), ("future", seq(L("//[v"), R(FEW, L("1")), L("."), R("1;2;16;33", L(":a")), L("]"), S(1))), ("dots", seq(L("//1.2"), R(FEW, L(".3")), S(1), L("/"))),
    ("all", seq(L("//"), R("1;17", L("u")), L("@"), R("1;17", L("h")), L(":"), R("1;17", L("8")), R("1;17", L("/p")), L("?"), R("1;17", L("q")), S(1), R("1;17", L("f")))),
    ("big", seq(L("//h/"), R(BIG, L("x")), S(1), L("?q")))]
URI_L = [("scheme", seq(L("a"), X(), S(1), L(":b"))), ("scheme-signs", seq(L("a"), R(FEW, L("1+-.")), S(1), L(":")))] + [(n, seq(L("s:"), t)) for n, t in TAIL]
REF_L = [(n, t) for n, t in TAIL] + [("noscheme", seq(X("0-34;64"), S(1), L("/b")))]
for n, t in URI_L:
    job("P01", n, "h_accept_uri", {0: t})
    job("P03", "uri-" + n, "h_components", {0: t}, {0: 0})
    job("P04", "uri-" + n, "h_compose_split", {0: t}, {0: 0})
    job("P25", "uri-" + n, "h_case", {0: t}, {0: 0})
    job("P02", "agree-" + n, "h_ref_agrees", {0: t})
    job("P06", "split-" + n, "h_split_valid", {0: t})
for n, t in REF_L:
    job("P02", n, "h_accept_ref", {0: t})
    job("P03", "ref-" + n, "h_components", {0: t}, {0: 1})
    job("P04", "ref-" + n, "h_compose_split", {0: t}, {0: 1})
    job("P25", "ref-" + n, "h_case", {0: t}, {0: 1})
    job("P24", "split-" + n, "h_split", {0: t}, {0: 1}, ub=True)
    job("P26", n, "h_filesystem_split", {0: t})

# ---------------------------------------------------------------- structures
FULL = dict(scheme=L("s"), user=L("u"), host=L("h"), port=L("1"), query=L("q"), frag=L("f"))
PIECES = [("scheme", dict(scheme=seq(L("a"), X(), S(1)))), ("user", dict(user=seq(X(), S(1)))), ("host", dict(host=seq(X(), S(1)))), ("port", dict(port=seq(R(CH, L("1")), S(1)))),
          ("query", dict(query=seq(X(), S(1)))), ("frag", dict(frag=seq(X(), S(1)))), ("escapes", dict(query=seq(R(FEW, L("%4a")), S(1), L("a")))),
          ("segment", dict(seg0=seq(X(), S(1)))), ("two", dict(host=seq(R("0;17;33", L("x")), S(1)), query=seq(R("0;17;33", L("x")), S(1))))]
PATHS = [("segments", seq(R(SEG, L("a/")), S(1), L("b/"))), ("empties", seq(L("a/"), R(SEG, L("/")), S(1), L("/"))), ("lengths", seq(R("0;1;40", L("x")), L("/"), R("0;1;40", L("y")), L("/"), S(1), L("/")))]
for n, kw in PIECES:
    d = dict(FULL)
    d.update(kw)
    k = 1 if "seg0" in d else 0
    bits = SCHEME1 | AUTH | USER | PORT | ABS | QUERY | FRAG
    job("P05", n, "h_split_compose", comps(**d), sh(0, bits, k))
    job("P06", n, "h_valid", comps(**d), sh(0, bits, k))
    e = {kk: v for kk, v in comps(base=20, **d).items()}
    e.update(comps(base=0, **d))
    for q in e:
        e[q] = e[q].replace(":" + CH + ":", ":0;1;15-17;31-33;64;128:").replace("r:" + CH, "r:0;1;15-17;31-33;64;128")
    job("P22", n, "h_equality", e, {0: 0, 1: bits, 2: k, 3: k})
for n, t in PATHS:
    d = comps(**FULL)
    d[19] = t
    for absolute in (0, 1):
        bits = SCHEME1 | ABS * absolute | (AUTH if absolute else 0) | QUERY
        job("P05", "%s-%d" % (n, absolute), "h_split_compose_long", d, sh(0, bits, 0))
        job("P06", "%s-%d" % (n, absolute), "h_valid_long", d, sh(0, bits, 0))
    few = t.replace(SEG, "0-3;15-17;31-33;64")
    e = comps(base=0, **FULL)
    e.update(comps(base=20, **FULL))
    e[19] = e[39] = few
    job("P22", n, "h_equality_long", e, {0: 0, 1: SCHEME1 | ABS, 2: 0, 3: 0})

# ---------------------------------------------------------------- resolution
BASE = L("s://u@h:1/a/b?q#f")
for strict in (1, 0):
    for n, b, r in [("base-deep", seq(L("s://h"), R(SEG, L("/a")), L("/b")), seq(L("../"), S(1), L("c"))), ("base-long", seq(L("s://h/a"), X(), L("/b?q")), seq(L("./"), S(1))),
                    ("ups", seq(L("s://h"), R("0-12;16;17;33", L("/a"))), seq(R("0-12;16;17;33", L("../")), S(1))), ("ref-deep", BASE, seq(R(SEG, L("x/")), S(1), L("y"))),
                    ("ref-abs", BASE, seq(R(SEG, L("/x")), L("/.."), S(1))), ("ref-long", BASE, seq(L("a"), X(), S(1))), ("ref-query", BASE, seq(L("?"), X(), S(1))), ("ref-frag", BASE, seq(L("#"), X(), S(1))),
                    ("ref-auth", BASE, seq(L("//u"), X("0-34;64;128"), L("@h"), S(1), L("/../x"))), ("scheme", seq(L("s"), X("0-34;64"), L("://h/a")), seq(L("s"), X("0-34;64"), L(":b"))),
                    ("base-query", seq(L("s://h/a?"), X()), seq(L("#"), S(1))), ("base-auth", seq(L("s://u"), X("0-34;64;128"), L("@h:1/p")), seq(S(1), L("x"))), ("base-rootless", seq(L("s:a"), R(SEG, L("/b"))), seq(L("c/"), S(1)))]:
        job("P07", "%s-%s" % ("strict" if strict else "lax", n), "h_join_parts", {0: b, 1: r}, {0: strict})
    job("P07", "text-%d" % strict, "h_join", {0: seq(L("s://h"), R("0-20;33;64", L("/a"))), 1: seq(L("../"), R("0-3;17", L("x/")), S(1))}, {0: strict})
    job("P24", "join-%d" % strict, "h_join_text", {0: seq(L("s://h"), R("0-12;16;17;33", L("/a"))), 1: seq(R("0-12;16;17;33", L("../")), S(1))}, {0: strict}, ub=True)
for n, t in [("ups", seq(R("0-34;64", L("a/")), R("0-4;16;17;33", L("../")), S(2))), ("plain", seq(R(SEG, L("a/")), S(2))), ("dots", seq(R(SEG, L("./")), S(2))), ("mixed", seq(R("0-34", L("a/../b/./")), S(2))),
             ("empties", seq(L("a"), R("0-34;64", L("/")), L("../"), S(1))), ("wide", seq(L("a/"), X(), S(1), L("/.."))), ("many-dots", seq(L("a/"), R(FEW, L(".")), S(1), L("/b"))),
             ("over", seq(L("a/b/"), R("0-34;64", L("../")), L("c"), S(1)))]:
    job("P08", "abs-" + n, "h_dots_absolute", {0: t})
    job("P08", "rel-" + n, "h_dots_relative", {0: t})

# ---------------------------------------------------------------- percent coding
for n in range(8):
    job("P09", "before-%s" % jobs_enc.SETS[n], "h_round_trip", {0: seq(R(CH, L("a")), S(2))}, {0: n})
    job("P09", "mixed-%s" % jobs_enc.SETS[n], "h_round_trip", {0: seq(S(1), R("0-34;64;128", L("a /\xff")), S(1))}, {0: n})
    job("P10", "before-%s" % jobs_enc.SETS[n], "h_encode", {0: seq(R(CH, L("a")), S(2))}, {0: n})
    job("P10", "mixed-%s" % jobs_enc.SETS[n], "h_encode", {0: seq(S(1), R("0-34;64;128", L("a /\xff")), S(1))}, {0: n})
for e in ("h_decode", "h_decode_iter", "h_decode_view"):
    for n, t in [("before", seq(X(), L("%"), S(2))), ("escapes", seq(R("0-40;64;85;86;128", L("%41")), S(2))), ("literal", seq(R("0-40;64;128", L("%")), S(2))), ("mixed", seq(S(1), R(FEW, L("a%C3%g1")), L("%"), S(2))),
                 ("after", seq(L("%"), S(2), X()))]:
        job("P11", "%s-%s" % (e[2:], n), e, {0: t})
for es in (1, 8, 64):
    job("P24", "percent-%d" % es, "h_percent", {0: seq(R("0-40;64;128;255-257", L("a")), L("%"), S(1), R("0-3;40", L("%4")))}, {0: es}, ub=True)

# ---------------------------------------------------------------- Punycode
A3 = lambda c: L(c.to_bytes(3, "big"))
for plain in (0, 1):
    for n, t in [("ascii", seq(R(CH, A3(0x61)), L(b"\0\0"), S(1))), ("ascii-higher", seq(R("1;3;16;33;64", A3(0x61)), L(b"\0\x20"), S(1))), ("same", seq(R("0-34;64", A3(0xFC)), L(b"\0\0"), S(1))),
                 ("two", seq(R("0-16;32", A3(0xFC)), R("0-3;16", A3(0x4E2D)), L(b"\0\0"), S(1))), ("last", seq(R("0-16;64", A3(0x10FFFF)), L(b"\0\0"), S(1)))]:
        job("P12", "encode%d-%s" % (plain, n), "h_puny_encode", {0: t}, {0: 1, 1: plain, 2: 1})
for n, t in [("ascii", seq(R(CH, A3(0x61)), L(b"\0\0"), S(1))), ("same", seq(R("0-34;64", A3(0xFC)), L(b"\0\0"), S(1))), ("two", seq(R("0-16;32", A3(0xFC)), R("0-3;16", A3(0x4E2D)), L(b"\0\0"), S(1)))]:
    job("P12", "round-" + n, "h_puny_round", {0: t}, {0: 1, 1: 0, 2: 1})
for n, t in [("ascii", seq(X(), L("-"), S(1))), ("ascii2", seq(X("0-16;33;63"), L("-"), C(1, "a9k-"), S(1))), ("dashes", seq(R(FEW, L("-")), S(1), L("a"))), ("dashed", seq(R(FEW, L("a-")), S(1))),
             ("letters", seq(R(FEW, L("a")), S(1))), ("more", seq(L("bcher-"), R(FEW, L("kva")), S(1))), ("high", seq(X("0-34;64"), S(1), L("b-a")))]:
    job("P13", n, "h_puny_decode", {0: t})
for n, t in [("ascii", seq(X(), L("-"), S(1))), ("letters", seq(R(FEW, L("a")), S(1)))]:
    job("P24", "punydec-" + n, "h_punycode", {0: t}, ub=True)

# ---------------------------------------------------------------- encoding and decoding into a store
for pid, entry, lit, pre in (("P14", "h_encode_decode", JP.LIT, ""), ("P15", "h_store_encode", JP.LIT, "enc-"), ("P15", "h_store_decode", JP.DLIT, "dec-")):
    def one(n, comp, segs=(L("a b"),), string=0, full=0):
        bits = sum(1 << k for k in comp)
        ins = dict(comp)
        if bits & (2 | 8):
            ins.setdefault(JP.HOST, "")
            bits |= 4
        for k, t in enumerate(segs):
            ins[10 + k] = t
        job(pid, pre + n, entry, ins, {0: bits, 1: len(segs), 2: 1, 3: 0, 4: string, 5: full})
    cnt = "0-34;63-65;127-129;255-257"
    for string in (0, 1):
        for k, nm in ((JP.USERINFO, "userinfo"), (JP.QUERY, "query"), (JP.FRAGMENT, "fragment")):
            one("%s-plain-%d" % (nm, string), dict(lit) | {k: seq(R(cnt, L("x")), S(1))}, string=string, full=string)
        one("query-escapes-%d" % string, dict(lit) | {JP.QUERY: seq(R(FEW, L(b"%20\xff ")), S(1))}, string=string)
        one("segment-plain-%d" % string, dict(lit), (seq(R(cnt, L("x")), S(1)), L("%41")), string=string, full=string)
        one("segment-escapes-%d" % string, {JP.QUERY: L("%41")}, (L("a"), seq(R(FEW, L(b"%20\xff ")), S(1))), string=string)
    one("scheme", dict(lit) | {JP.SCHEME: seq(L("a"), R(cnt, L("x")))})
    one("port", dict(lit) | {JP.PORT: R(cnt, L("1"))})
    one("host-ascii", {JP.HOST: seq(R(cnt, L("x")), S(1) if pre == "dec-" else C(1, b".az0")), JP.QUERY: L("%41 ")})
    one("host-labels", {JP.HOST: seq(R(FEW, L("x.")), C(1, b".xn")), JP.USERINFO: L("%41 ")})
    if pre != "dec-":
        one("host-idn", {JP.HOST: seq(R("0-20;33;58-64", L("x")), L(b"\xc3"), C(1, range(0x80, 0xC0)), L(".de"))})
        one("host-idns", {JP.HOST: seq(R("0-8;16;17", L(b"\xc3\xbc.")), L(b"a\xc3"), C(1, range(0x80, 0xC0)))})
    else:
        one("host-idn", {JP.HOST: seq(L("xn--"), R("0-20;33;58-64", L("x")), L("-"), C(1, "akz09-."))})
        one("host-idns", {JP.HOST: seq(R("0-8;16;17", L("xn--tda.")), L("xn--"), C(2, "tda-."))})

# ---------------------------------------------------------------- transcoding
UNITS = {8: [("ascii", b"a"), ("two", b"\xc3\xbc"), ("three", b"\xe4\xbd\xa0"), ("four", b"\xf0\x9f\x98\x80")], 16: [("ascii", b"\0a"), ("bmp", b"\x4f\x60"), ("pair", b"\xd8\x3d\xde\x00")],
         32: [("ascii", b"\0\0\0a"), ("last", b"\0\x10\xff\xff")]}
LEN = {8: "0-40;63-65;127-129", 16: "0-34;64", 32: "0-34;64"}
for a in ENC:
    for b in ENC:
        job("P16", "%d-%d-ascii" % (a, b), "h_wf_%d_%d" % (a, b), {0: seq(R("0-34;64;128", A3(0x61)), S(3))}, {0: 1})
        job("P16", "%d-%d-mixed" % (a, b), "h_wf_%d_%d" % (a, b), {0: seq(R(FEW, A3(0x61), A3(0xFC), A3(0x4F60), A3(0x1F600)), L(b"\0"), S(2))}, {0: 1})
        job("P16", "%d-%d-between" % (a, b), "h_wf_%d_%d" % (a, b), {0: seq(S(3), R("0-16;33", A3(0x1F600)), L(b"\0"), S(2))}, {0: 1})
        for n, u in UNITS[a]:
            bad = R("0;1", L({8: b"\xff", 16: b"\xd8\x00", 32: b"\xff\xff\xff\xff"}[a]))
            job("P17", "%d-%d-%s" % (a, b, n), "h_any_%d_%d" % (a, b), {0: seq(bad, R(LEN[a], L(u)), S(2 if a == 8 else W[a]))}, {0: 1})
            job("P19", "ada-%d-%d-%s" % (a, b, n), "h_ada_%d_%d" % (a, b), {0: seq(bad, R("0-20;33;64", L(u)), S(2 if a == 8 else W[a]))})
    for nm, m, u, k in (("u8", "efbbbf", b"a", 2), ("none", "", b"a\xc3\xbc", 2), ("be16", "feff", b"\0a", 2), ("le16", "fffe", b"a\0", 2), ("be32", "0000feff", b"\0\0\0a", 4), ("le32", "fffe0000", b"a\0\0\0", 4)):
        t = {0: seq(hx(m), R("0-34;64", L(u)), S(k))}
        job("P18", "%d-%s" % (a, nm), "h_bytes_%d" % a, t)
        job("P18", "%d-%s-cut" % (a, nm), "h_bytes_%d" % a, {0: seq(hx(m), R("0-20;64", L(u)), S(k - 1))})
        job("P19", "ada-x-%d-%s" % (a, nm), "h_ada_x_%d" % a, {0: seq(hx(m), R("0-20;64", L(u)), S(k))})
for to in ENC:
    for a, u, k in (("8", b"a\xc3\xbc", 2), ("16", b"\xd8\x3d\xde\x00", 2), ("32", b"\0\0\0a", 4)):
        job("P24", "from%s-%d" % (a, to), "h_from_" + a, {0: seq(R("0-20;33;64", L(u)), S(k))}, {0: to}, ub=True)

# ---------------------------------------------------------------- algorithms
for w in ENC:
    job("P20", "points%d-ascii" % w, "h_points_%d" % w, {0: seq(R("0-20;33;64", A3(0x61)), S(3))}, {0: 1})
    job("P20", "points%d-mixed" % w, "h_points_%d" % w, {0: seq(R("0-6;16", A3(0x61), A3(0xFC), A3(0x4F60), A3(0x1F600)), L(b"\0"), S(2))}, {0: 1})
job("P20", "find_last-same", "h_find_last", {0: seq(R("0-34;64;128;255-257", L("a")), S(1)), 1: S(1)})
job("P20", "find_last-mixed", "h_find_last", {0: seq(S(1), R("0-34;64;128;255-257", L("ab"))), 1: S(1)})
job("P20", "starts", "h_starts_with", {0: seq(R("0-34;64", L("a")), S(1)), 1: seq(R("0;1;8;16;17;32;33;64", L("a")), S(1))})

# ---------------------------------------------------------------- grammars
jobs_rule.p  # the property's own jobs come first
for g in ("*--a", "*0na", "*2na", ".*--ab", "*--,ab", "*0A?.ab" if False else "*0Aa", "*1Ba", "*ACa", "*0Ea", "*BNa", "*0Na", "*HHa", "*0Ja", ".*0Baa", "*AC/ab", "*--.a?b", ",*--ab", "*--,a,ab"):
    job("P21", g, "h_grammar", {0: seq(R("0-40;63-66;127-130;254-258", L("a")), S(1)), 1: L(g)})
# a repetition count of more than 16 bits
for g in ("*--a", "*Qna", "*Rna", "*0Pa", "*0Qa", "*QQa"):
    job("P21", "16bit" + g, "h_grammar", {0: R("65535-65538", L("a")), 1: L(g)})
for k in (4, 8, 16, 17, 33):
    job("P21", "deep-concat%d" % k, "h_grammar", {0: seq(R("0;1", L("b")), R("%d-%d" % (k - 1, k + 1), L("a")), S(1)), 1: L(",a" * k + "a")})
    job("P21", "deep-optional%d" % k, "h_grammar", {0: seq(R("0-%d" % k, L("a")), S(1)), 1: L(",a" + ":.a" * k + "a")})
    job("P21", "deep-alternative%d" % k, "h_grammar", {0: seq(R("0-%d" % k, L("a")), S(1)), 1: L("/,bc" * k + "*--,aa")})

# ---------------------------------------------------------------- more than 16 bits of length
HUGE = "65537"
for n, t in [("query", seq(L("s://h/a?"), R(HUGE, L("x")), S(1))), ("segment", seq(L("s://h/"), R(HUGE, L("x")), L("/"), S(1))), ("host", seq(L("s://"), R(HUGE, L("x")), S(1)))]:
    job("P01", "16bit-" + n, "h_accept_uri", {0: t})
    job("P03", "16bit-" + n, "h_components", {0: t}, {0: 0}, tier="q" if n != "segment" else "t", cost=40)
    job("P04", "16bit-" + n, "h_compose_split", {0: t}, {0: 0})
job("P02", "16bit", "h_accept_ref", {0: seq(L("/"), R(HUGE, L("x")), S(1))})
job("P09", "16bit", "h_round_trip", {0: seq(R(HUGE, L("a")), S(1))}, {0: 1}, tier="t")
job("P10", "16bit", "h_encode", {0: seq(R(HUGE, L("a")), S(1))}, {0: 1}, tier="t")
for e in ("h_decode", "h_decode_iter", "h_decode_view"):
    job("P11", "16bit-" + e[2:], e, {0: seq(R(HUGE, L("a")), L("%4"), S(1))}, tier="q" if e == "h_decode" else "t", cost=90)
job("P13", "16bit", "h_puny_decode", {0: seq(R(HUGE, L("a")), L("-"), S(1))})
job("P12", "16bit", "h_puny_encode", {0: seq(R(HUGE, A3(0x61)), L(b"\0\0"), S(1))}, {0: 1, 1: 0, 2: 1})
job("P16", "16bit", "h_wf_8_16", {0: seq(R(HUGE, A3(0x61)), L(b"\0\0"), S(1))}, {0: 1}, tier="t")

for v in PROPS.values():
    n = sum(j["name"].startswith("long-") for j in v["jobs"])
    if n and v["jobs"][-1]["entry"]:
        v["bounds"] += "; and %d families of long inputs (named long-*): literal units repeated any of the listed numbers of times, up to 258 (1025 in one family, 65538 in those named long-16bit*), with one or two free bytes beside them" % n
