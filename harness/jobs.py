"""The jobs of every property: harness entry, symbolic inputs (the bounds), parameters, tier."""

COMMON_ASSUMPTIONS = [
    "encoded code is what clang 18 -std=c++20 -D_GLIBCXX_ASSERTIONS produces for x86-64 (NDEBUG off), libstdc++ 13 templates included as instantiated in the IR",
    "malloc/operator new never fail for sizes below 8 MiB; <cctype> functions are those of the C locale as glibc computes them, defined on -128..255",
    "std::ios_base construction, std::locale and exception objects' destructors are modelled by stubs; everything else outside the library that is called is executed from its IR",
]
ANY = None


def L(text):
    b = text.encode("latin-1") if isinstance(text, str) else bytes(text)
    return "l:" + b.hex() if b else ""


def S(n):
    return "s:%d" % n if n else ""


def C(n, chars):
    """n bytes, each any member of chars (a string, bytes or iterable of ints)"""
    if not n:
        return ""
    if isinstance(chars, str):
        chars = chars.encode("latin-1")
    bits = bytearray(32)
    for c in chars:
        bits[c >> 3] |= 1 << (c & 7)
    return "c:%d:%s" % (n, bytes(bits).hex())


def R(counts, *toks):
    """the tokens repeated any of the numbers of times in counts, such as "0-40;64" """
    return "r:%s:%s" % (counts, "+".join(t.replace(",", "+") for t in toks if t))


def seq(*toks):
    return ",".join(t for t in toks if t)


PROPS = {}


class Prop:
    def __init__(self, pid, harness, bounds, covers=(), libs=("uri", "rule"), assumptions=()):
        self.p = {"jobs": [], "bounds": bounds, "covers": list(covers), "libs": "all", "assumptions": list(assumptions)}
        self.h = harness
        PROPS[pid] = self.p

    def job(self, name, entry, inputs, params=None, tier="q", cost=1, bound=None, ub=False, samples=24, solver_ms=120000, flags=(), harness=None, supersedes=None):
        self.p["jobs"].append({"name": name, "entry": entry, "inputs": inputs, "params": params or {}, "tier": tier, "cost": cost, "bound": bound or describe(inputs),
                               "ub": ub, "samples": samples, "solver_ms": solver_ms, "flags": list(flags), "harness": harness or self.h, "supersedes": supersedes})


def describe_token(t):
    if t.startswith("l:"):
        return repr(bytes.fromhex(t[2:]))[2:-1]
    if t.startswith("s:"):
        return "<%s any bytes>" % t[2:]
    if t.startswith("r:"):
        _, n, inner = t.split(":", 2)
        return "(" + "".join(describe_token(x) for x in inner.split("+")) + "){%s times}" % n.replace(";", " or ")
    n, h = t[2:].split(":")
    bits = bytes.fromhex(h)
    cs = bytes(i for i in range(256) if bits[i >> 3] >> (i & 7) & 1)
    return "<%s of %s>" % (n, "[" + repr(cs)[2:-1] + "]" if len(cs) <= 40 else "%d byte values" % len(cs))


def describe(inputs):
    return "; ".join("input %d: %s" % (k, "".join(describe_token(t) for t in v.split(",") if t) or "empty") for k, v in sorted(inputs.items()))


import jobs_uri  # noqa: E402,F401
import jobs_comp  # noqa: E402,F401
import jobs_enc  # noqa: E402,F401
import jobs_puny  # noqa: E402,F401
import jobs_icu  # noqa: E402,F401
import jobs_parts  # noqa: E402,F401
import jobs_alg  # noqa: E402,F401
import jobs_rule  # noqa: E402,F401
import jobs_safe  # noqa: E402,F401
import jobs_long  # noqa: E402,F401
