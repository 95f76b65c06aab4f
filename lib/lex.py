"""Tokenizer for PDDL text, independent of the library under test.

Texts become sequences of token trees {"k","a","l"} as described in spec/PddlReader.tla."""
import re
from decimal import Decimal

_TOK = re.compile(
    r"(?P<ws>\s+)|(?P<c>;[^\n]*)|(?P<lp>\()|(?P<rp>\))"
    r"|(?P<v>\?(?:\s|;[^\n]*\n)*[A-Za-z][A-Za-z0-9_-]*)|(?P<n>[A-Za-z][A-Za-z0-9_-]*)"
    r"|(?P<w>:[A-Za-z][A-Za-z0-9_-]*)|(?P<d>[0-9]+(?:\.[0-9]+)*)|(?P<s>>=|<=|>|<|=|\+|\*|/|-)"
)
_VAR = re.compile(r"([A-Za-z][A-Za-z0-9_-]*)\Z")


def plain(d):
    t = format(d, "f")
    if "." in t:
        t = t.rstrip("0").rstrip(".")
    return t or "0"


def canon_literal(t):
    """Canonical decimal of a number literal, with the precision a float has for decimals."""
    if t.count(".") > 1:
        return None
    if "." in t:
        return canon_value(float(t))    # None if it is out of range
    return str(int(t)) if len(t) <= 4300 else None


def canon_value(v):
    """Canonical decimal of a number held by the library."""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return None
    if isinstance(v, int):
        return str(v)
    if v != v or v in (float("inf"), float("-inf")):
        return None
    return str(int(v)) if v.is_integer() else plain(Decimal(repr(v)))


def atom(k, a):
    return {"k": k, "a": a, "l": []}


def read(text):
    """(lexical ok, forms)"""
    stack = [[]]
    pos = 0
    while pos < len(text):
        m = _TOK.match(text, pos)
        if m is None:
            return False, []
        pos = m.end()
        g = m.lastgroup
        if g in ("ws", "c"):
            continue
        if g == "lp":
            stack.append([])
        elif g == "rp":
            if len(stack) == 1:
                return False, []
            l = stack.pop()
            stack[-1].append({"k": "l", "a": "", "l": l})
        elif g == "v":
            stack[-1].append(atom("v", _VAR.search(m.group()).group(1)))
        elif g == "d":
            c = canon_literal(m.group())
            stack[-1].append(atom("b", m.group()) if c is None else atom("d", c))
        else:
            stack[-1].append(atom(g, m.group()))
    if len(stack) != 1:
        return False, []
    return True, stack[0]
