"""P12, P13: Punycode."""
from jobs import Prop, L, S, C, seq

RANGE = lambda a, b: bytes(range(a, b + 1))


def points(*items):
    """code points as inputs: an int is a literal, a string a token"""
    r = {}
    for k, i in enumerate(items):
        r[k] = L(i.to_bytes(4, "big").lstrip(b"\0") or b"\0") if isinstance(i, int) else i
    return r


def u(text):
    return [ord(c) for c in text]


p = Prop("P12", "puny_h.cpp",
         "encoding: every code point sequence of length 0 and 1 (all of Unicode), every pair of one below U+10000 and one below U+100, and the listed longer texts of literal and freely "
         "chosen code points, with plain output allowed and not; round trip: all single code points below U+10000, pairs below U+100 and the listed longer texts (thorough: more)",
         ["passed through", "all basic", "encoded", "round trip"])
for plain in (0, 1):
    P = lambda n: {0: n, 1: plain, 2: 0}
    def enc(nm, items, cost, tier="q"):
        p.job("encode%d-%s" % (plain, nm), "h_puny_encode", points(*items), P(len(items)), cost=cost, tier=tier)
    enc("none", [], 1)
    enc("any", [S(3)], 10)
    enc("1byte", [S(1)], 1)
    enc("2x1", [S(1), S(1)], 2)
    if not plain:
        enc("2-1", [S(2), S(1)], 27)
        enc("1-2", [S(1), S(2)], 27)
    enc("ascii3", [C(1, RANGE(0, 127))] * 3, 2)
    enc("border3", [C(1, RANGE(0x7e, 0x83))] * 3, 5)
    enc("border4", [C(1, RANGE(0x7f, 0x81))] * 4, 5)
    enc("a-2", [0x61, S(2)], 10)
    enc("a-any", [0x61, S(3)], 160, "t")
    enc("any-a", [S(3), 0x61], 10)
    enc("word-any", u("Mnchen") + [S(3)], 10)
    enc("any-same", [0xFC, S(2), 0xFC], 20)
    enc("arabic", [0x644, 0x64A, 0x647, S(1), 0x645, 0x627], 5)
    enc("wide", [0x10FFFF, S(1), 0x80], 20)
    enc("cjk", [0x4ED6, C(1, RANGE(0, 127)), 0x4EEC, S(1)], 30)
    # the delta of the second integer crosses the bias adaptation's boundary (455)
    enc("adapt-first", u("abc") + [seq(L(b"\xF9"), S(1)), 0x10FFFF], 20)
    enc("adapt-later", u("ab") + [0x80, seq(L(b"\1"), S(1)), 0x10FFFF], 20)
    enc("adapt-later4", u("aaaa") + [0x80, seq(L(b"\1"), S(1)), 0x10FFFF], 20)
    enc("2x2", [S(2), S(2)], 500, "t")
    enc("3x1", [S(1), S(1), S(1)], 300, "t")
    enc("2-a-1", [S(2), 0x61, S(1)], 60, "t")
def rnd(nm, items, cost, tier="q"):
    p.job("round-%s" % nm, "h_puny_round", points(*items), {0: len(items), 1: 0, 2: 0}, cost=cost, tier=tier)
rnd("none", [], 1)
rnd("1", [S(1)], 1)
rnd("2", [S(2)], 70)
rnd("1-1", [S(1), S(1)], 8)
rnd("ascii3", [C(1, RANGE(0, 127))] * 3, 2)
rnd("border3", [C(1, RANGE(0x7e, 0x83))] * 3, 80)
rnd("word", u("Mnchen") + [S(1)], 10)
rnd("umlaut", u("b") + [0xFC, S(1)] + u("cher"), 10)
rnd("arabic", [0x644, 0x64A, S(1), 0x627], 10)
rnd("wide", [0x10FFFF, S(1), 0x80], 20)
rnd("2-1", [S(2), S(1)], 300, "t")
rnd("any", [S(3)], 500, "t")

def vli(v):
    r, k = "", 36
    while True:
        t = 1 if k <= 73 else 26 if k >= 98 else k - 72
        if v < t:
            return r + (chr(97 + v) if v < 26 else chr(48 + v - 26))
        d = t + (v - t) % (36 - t)
        r += chr(97 + d) if d < 26 else chr(48 + d - 26)
        v, k = (v - t) // (36 - t), k + 36


p = Prop("P13", "puny_h.cpp", "every byte string of at most 3 bytes; those of the listed longer forms (an ASCII part and a delimiter followed by free bytes, free bytes among literal digits, long runs of digits that overflow)",
         ["bad input", "decoded", "overflow"], assumptions=["a delimiter with nothing before it is skipped: RFC 3492 would take it for a digit and fail; the library's tests document the leniency"])
def dec(nm, tok, cost, tier="q"):
    p.job("decode-%s" % nm, "h_puny_decode", {0: tok}, cost=cost, tier=tier)
for k in range(4):
    dec("any%d" % k, S(k), 3 ** k / 10)
dec("set4", C(4, "a9-B"), 10)
dec("set5", C(5, "a9-"), 10)
dec("set6", C(6, "a9-"), 20, "t")
dec("digits4", C(4, "ab89"), 20)
dec("plain1", seq(S(1), L("-"), S(2)), 10)
dec("plain2", seq(S(2), L("-"), S(1)), 5)
dec("plain3", seq(L("abc-"), S(2)), 60)
dec("plain3-set", seq(L("abc-"), C(3, "a9-Bk")), 30)
dec("munich", seq(L("Mnchen-"), S(2)), 5)
dec("munich3", seq(L("Mnchen-"), C(3, "3ya9")), 30)
dec("munich2", seq(L("Mnchen-3"), S(2)), 10)
dec("two-parts", seq(L("a-"), S(1), L("-"), S(2)), 10)
dec("high", seq(S(1), L("b-"), S(1)), 5)
for n in (4, 6, 8, 10, 12, 14, 16):
    dec("nines%d" % n, seq(L("9" * n), S(1)), 5)
    if n in (10, 12, 14):
        dec("nines%d-2" % n, seq(L("9" * n), S(1), L("9"), C(1, "09azmB")), 100, "t")
        dec("nines%d-1" % n, seq(L("9" * n), C(1, "09azmB"), L("9")), 5)
    else:
        dec("nines%d-2" % n, seq(L("9" * n), S(1), L("9"), S(1)), 5)
dec("nines-mid", seq(L("99"), S(1), L("99999"), S(1)), 10)
dec("plain-nines", seq(L("abc-9999"), S(1), L("9"), S(1)), 10)
dec("a9", seq(L("a9"), S(2)), 5)
for d in (455 * 700, 456 * 700, 364 * 700, 365 * 700, 364 * 700 - 1):
    t = vli(d)
    dec("adapt%d" % d, seq(L("abc-"), S(1), L(t[1:] + "99a")), 5)
dec("a-1-d", seq(L("a"), C(2, "bN9zk"), L("d")), 10)
dec("a-2-d", seq(L("a"), S(2), L("d")), 120, "t")
# the first code point at the top of 32 bits: the digits of (2^32 - 1 - 128) * length + position
for n, pre in ((1, ""), (3, "ab-")):
    d = vli((2 ** 32 - 129) * n + n // 2)
    dec("top%d-low" % n, seq(L(pre), S(1), L(d[1:])), 5)
    dec("top%d-low2" % n, seq(L(pre + d[0]), S(1), L(d[2:])), 5)
    dec("top%d-last" % n, seq(L(pre + d[:-1]), S(1)), 5)
    dec("top%d-more" % n, seq(L(pre), S(1), L(d[1:]), S(1)), 5)
dec("arabic", seq(L("egbpdaj6bu4bxfgehf"), S(2)), 40)
dec("any4", S(4), 2000, "t")
