"""P21: the grammar combinators."""
import random
from jobs import Prop, L, S, C, seq

p = Prop("P21", "rule_h.cpp",
         "about 200 grammars built from single characters, character ranges, alpha, digit, hexdig, concatenation, ordered choice, optional and bounded or unbounded repetition, "
         "nested up to 4 deep, with acceptors at any place, each over every text of up to 4 (thorough: 6) arbitrary bytes; repetition only of what does not match the empty text "
         "unless bounded above",
         covers=("complete", "partial", "no match", "acceptor", "matched", "failed"))

HAND = ["a", "z", "[az", "[AZ", "[09", "[mm", "[za", "[+~", "@", "#", "$", ".ab", ".aa", "/ab", "/a.ab", "/.aba", "|abc", "|.abca", "?a", ".?ab", ".?aa", "*--a", "*0na", "*1na", "*2na",
        "*02a", "*13a", "*22a", "*00a", "*01a", "*30a", ".*--aa", ".*02aa", ".*--ab", "*--/ab", "*02/a.ab", "*--.ab", ".*--.aba", "*03?a", "*22?a", "*02*02a", "*--*11a", "*1n*12a",
        ",ab", ",?ab", ",*--ab", ",*--aa", ":a", ".:ab", "/,aba", "/,ab,ac", "|,ab,ac,ad", "|a,bcd", "*--,ab", "*02,ab", "*2n,ab", "*3n,ab", "/*3n,aba", ".*02:ab", ",,abc", ",a,bc",
        "/,.,abcd.ab", ":,ab", ":.:abc", "?.:abc", "?,ab", ".?,abc", ".?,aba", "./,abab", "*--/,ab,ac", "*12/,ab,ac", "/,a,bca", ",/ab/cd", ",|abc|bca", ".,ab,cd", ".*--,ab,cd",
        "/.,abc.,abd", ".a*--@", ".@*--/@/#/[++/[--[..", ".*12#*--$", ".*13#.?a*--#", ",*13#,a*13#", "*--.a?b", "*--/.a?b.b?a", "|,,abc,,acb,,bca", "*0n?:a" if False else "*03:a", "*13:a"]


def grammars(n, seed):
    r = random.Random(seed)
    leaf = ["a", "b", "a", "b", "c", "[ab", "@", "#", "$"]

    def empty(g, i):
        """(can this grammar match the empty text, index after it)"""
        c = g[i]
        if c in "?:":
            return True, empty(g, i + 1)[1]
        if c == "[":
            return False, i + 3
        if c == "*":
            e, j = empty(g, i + 3)
            return g[i + 1] in "0-" or e, j
        if c in ".,/|":
            j, es = i + 1, []
            for _ in range(3 if c == "|" else 2):
                e, j = empty(g, j)
                es.append(e)
            return (all(es) if c in ".," else any(es)), j
        return False, i + 1

    def gen(d):
        if d == 0 or r.random() < 0.15:
            return r.choice(leaf)
        op = r.choice(".,/|?:**.,/")
        if op in ".,/":
            return op + gen(d - 1) + gen(d - 1)
        if op == "|":
            return op + gen(d - 1) + gen(d - 1) + gen(d - 1)
        if op == "*":
            a = gen(d - 1)
            lo, hi = r.choice([("-", "-"), ("0", "n"), ("1", "n"), ("0", "2"), ("1", "2"), ("2", "2"), ("0", "1"), ("2", "3")])
            if hi in "n-" and empty(a, 0)[0]:
                lo, hi = "1", "2"
            return op + lo + hi + a
        return op + gen(d - 1)
    out = []
    while len(out) < n:
        g = gen(r.choice((2, 3, 3, 4)))
        if len(g) <= 24 and g not in out and g not in HAND:
            out.append(g)
    return out


for ix, g in enumerate(HAND + grammars(110, 5)):
    for n in (0, 1, 2, 3, 4, 5, 6):
        if n < 3 and ix >= len(HAND):
            continue
        p.job("%s-%d" % (g, n), "h_grammar", {0: S(n), 1: L(g)}, tier="t" if n > 4 or (n > 3 and ix >= len(HAND)) else "q", cost=2 ** n / 8)
for n in range(4):
    p.job("failed-%d" % n, "h_failed", {0: S(n)}, cost=1)
