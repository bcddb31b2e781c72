"""Regular expressions over symbolic strings.

A backtracking matcher over the parsed pattern, trying alternatives in the same
order as the re module, so that the match found is the same; each test of a
symbolic character against a class is one decision (fork) of the engine.
Supports what plain patterns use; anything else raises Unsupported and the
string is made concrete instead.
"""

from __future__ import annotations

import functools
import re
import re._constants as C
import re._parser as parser

import z3

from .values import SymBytes, SymInt, SymStr, mk  # noqa: F401


class Unsupported(Exception):
    pass


@functools.lru_cache(None)
def category(cat, ascii_only):
    """Ranges of code points in a category."""
    limit = 128 if ascii_only else 0x110000
    rx = {C.CATEGORY_WORD: r"\w", C.CATEGORY_DIGIT: r"\d",
          C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_WORD: r"\W",
          C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_NOT_SPACE: r"\S"}[cat]
    text = "".join(map(chr, range(limit)))
    flags = re.ASCII if ascii_only else 0
    return [(m.start(), m.end() - 1) for m in re.finditer(rx + "+", text, flags)]


def within(x, ranges):
    """x in the ranges, as one truth value."""
    if type(x) is not SymInt:
        return any(a <= x <= b for a, b in ranges)
    hi, lo = x.hi, x.lo
    W = x.e.size()
    parts = []
    for a, b in ranges:
        a, b = max(a, lo), min(b, hi)
        if a > b:
            continue
        parts.append(x.e == a if a == b else
                     z3.And(z3.UGE(x.e, z3.BitVecVal(a, W)),
                            z3.ULE(x.e, z3.BitVecVal(b, W))))
    if not parts:
        return False
    return mk_bool(z3.Or(*parts))


def mk_bool(e):
    from .values import SymBool
    # (not simplified here: re-execution compares the terms)
    return SymBool(e)


def ranges_of(items, ascii_only):
    out, neg = [], False
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            out.append((av, av))
        elif op is C.RANGE:
            out.append(av)
        elif op is C.CATEGORY:
            out.extend(category(av, ascii_only))
        else:
            raise Unsupported(str(op))
    if neg:
        out.sort()
        res, at = [], 0
        for a, b in out:
            if a > at:
                res.append((at, a - 1))
            at = max(at, b + 1)
        if at <= 0x10FFFF:
            res.append((at, 0x10FFFF))
        out = res
    return out


class Matcher:
    def __init__(self, pattern, els):
        tree = parser.parse(pattern.pattern, pattern.flags & ~re.UNICODE
                            if isinstance(pattern.pattern, bytes)
                            else pattern.flags)
        if pattern.flags & (re.IGNORECASE | re.MULTILINE | re.VERBOSE | re.LOCALE):
            raise Unsupported("flags")
        self.flags = pattern.flags
        self.ascii = isinstance(pattern.pattern, bytes) or bool(
            pattern.flags & re.ASCII)
        self.els = els
        self.tree = list(tree)
        self.groups = {}

    def seq(self, nodes, i, k):
        """Match nodes at i, then k(i)."""
        if not nodes:
            return k(i)
        return self.node(nodes[0], i, lambda j: self.seq(nodes[1:], j, k))

    def char(self, ranges, i, k):
        if i < len(self.els) and within(self.els[i], ranges):
            return k(i + 1)
        return None

    def node(self, node, i, k):
        op, av = node
        n = len(self.els)
        if op is C.LITERAL:
            return self.char([(av, av)], i, k)
        if op is C.NOT_LITERAL:
            return self.char(ranges_of([(C.NEGATE, None), (C.LITERAL, av)],
                                       self.ascii), i, k)
        if op is C.IN:
            return self.char(ranges_of(av, self.ascii), i, k)
        if op is C.ANY:
            if self.flags & re.DOTALL:
                return self.char([(0, 0x10FFFF)], i, k)
            return self.char([(0, 9), (11, 0x10FFFF)], i, k)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                return k(i) if i == 0 else None
            if av is C.AT_END_STRING:
                return k(i) if i == n else None
            if av is C.AT_END:
                if i == n or (i == n - 1 and self.els[i] == 10):
                    return k(i)
                return None
            raise Unsupported(str(av))
        if op is C.SUBPATTERN:
            group, add, sub, body = av
            if add or sub:
                raise Unsupported("inline flags")
            old = self.groups.get(group)

            def done(j):
                prev = self.groups.get(group)
                if group is not None:
                    self.groups[group] = (i, j)
                r = k(j)
                if r is None and group is not None:
                    self.groups[group] = prev
                return r

            r = self.seq(list(body), i, done)
            if r is None and group is not None:
                self.groups[group] = old
            return r
        if op is C.BRANCH:
            for body in av[1]:
                r = self.seq(list(body), i, k)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = av
            return self.repeat(list(body), lo, hi, i, 0, k, op is C.MAX_REPEAT)
        raise Unsupported(str(op))

    def repeat(self, body, lo, hi, i, count, k, greedy):
        def more():
            if hi is not C.MAXREPEAT and count >= hi:
                return None
            return self.seq(body, i, lambda j: None if j == i and count >= lo
                            else self.repeat(body, lo, hi, j, count + 1, k, greedy))

        if count < lo:
            return more()
        if greedy:
            r = more()
            return k(i) if r is None else r
        r = k(i)
        return more() if r is None else r

    def at(self, i, full=False):
        self.groups = {}
        n = len(self.els)
        return self.seq(self.tree, i,
                        lambda j: j if not full or j == n else None)


class SymMatch:
    """What a successful match offers."""

    def __init__(self, pattern, string, start, end, groups):
        self.re, self.string = pattern, string
        self._spans = {0: (start, end)}
        self._spans.update({g: s for g, s in groups.items() if s is not None})

    def _index(self, g):
        return self.re.groupindex[g] if isinstance(g, str) else g

    def span(self, g=0):
        return self._spans.get(self._index(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        gs = gs or (0,)
        out = tuple(None if self.span(g)[0] < 0 else
                    self.string[self.span(g)[0]:self.span(g)[1]] for g in gs)
        return out[0] if len(out) == 1 else out

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self.span(g)[0] < 0 else self.group(g)
                     for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: default if self.span(g)[0] < 0 else self.group(g)
                for k, g in self.re.groupindex.items()}


METHODS = ("match", "fullmatch", "search")


def run(pattern, name, string):
    """pattern.<name>(string)"""
    m = Matcher(pattern, string.els)
    starts = range(len(string.els) + 1) if name == "search" else (0,)
    for i in starts:
        j = m.at(i, name == "fullmatch")
        if j is not None:
            return SymMatch(pattern, string, i, j, m.groups)
    return None
