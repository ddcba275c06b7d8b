"""Shared by C04/C05: the accounts (id, capacity, level) of an EventsContainer."""

import ast

import terms as T
from lib import SELF, attr, fail, imprecise, undecided

CLS = "EventsContainer"
BV = ("bv",)
SUFFIX = "_reservations"
PID = ("param", "id_")
LEVEL_KEY = ("str", "level")


def field(t):
    """Name of the attribute of self this term reads, else None."""
    while t[0] in ("stale", "copy"):
        t = t[1]
    if t[0] == "attr" and t[1] == SELF:
        return t[2]
    if t[0] == "vol" and t[2] == SELF:
        return t[3]
    return None


def is_items(t):
    return field(t) == "items"


def is_store(recv):
    return recv is not None and recv[0] == "super" and recv[2] == SELF


def same_id(x, i):
    return T.eq(("key", x, ("str", "id")), i)


def account_of(t, i, facts):
    """Is t the account with id i?  True / False (another account) / None (not an account)."""
    if t[0] == "stale":
        t = t[1]
    if t[0] == "vol" and t[3] == "value" and t[2][0] == "res" and t[2][2] == "get" and is_store(t[2][3]):
        p = dict(t[2][4]).get("0")
        if p is None or p[0] != "pred":
            return None
        return p[1] == same_id(BV, i) or (None if imprecise(p[1]) else False)
    if t[0] == "key" and t[2][0] == "num" and t[1][0] == "filter" and is_items(t[1][1]):
        return t[1][2] == (same_id(BV, i),)
    if next_of(t, i):
        return any(a[0] == "in" and a[2] == t and v for a, v in facts.items())
    if t[0] == "key" and t[2][0] == "num" and is_items(t[1]) and t[1][0] != "stale":
        return facts.get(same_id(t, i)) is True
    if t[0] == "at" and is_items(t[1]):
        return facts.get(same_id(t, i)) is True
    if t[0] == "at" and t[1][0] == "filter" and is_items(t[1][1]):
        return t[1][2] == (same_id(BV, i),)
    if t[0] in ("first", "found") and len(t) > 2 and is_items(t[1]):
        return t[2] in (same_id(BV, i), (same_id(BV, i),))
    return None


def no_match(facts, i):
    """Do the facts say that no account has the id i?"""
    for a, v in facts.items():
        if a[0] == "isnone" and is_items(a[1]) and v:
            return True
        if a[0] == "truth" and is_items(a[1]) and not v:
            return True
        if a[0] == "exists" and is_items(a[1]) and a[2] == same_id(BV, i) and not v:
            return True
        if a[0] == "in" and a[1] == i and not v and lists_by(a[2], i, ids=True):
            return True
        if a[0] == "in" and not v and next_of(a[2], i) or a[0] == "truth" and not v and next_of(a[1], i):
            return True
        if a[0] == "truth" and not v and lists_by(a[1], i):
            return True
        if a[0] in ("lt0", "eq0"):
            for L in _lens(a[1]):
                if not lists_by(L, i):
                    continue
                n = ("len", L)
                if a == T.lt0(T.neg(n)) and not v or a == T.eq0(n) and v or a == T.lt0(T.sub(n, T.num(1))) and v:
                    return True
    return False


def _lens(t):
    if isinstance(t, tuple):
        if t and t[0] == "len":
            yield t[1]
        else:
            for c in t:
                yield from _lens(c)


def lists_by(L, i, ids=False):
    """Is L a list with one element per account with id i (ids: the list of the ids of all accounts)?"""
    if L[0] == "filter" and is_items(L[1]):
        return not ids and L[2] == (same_id(BV, i),)
    if L[0] in ("list", "set", "tuple") and len(L[1]) == 1 and L[1][0][0] == "each" and is_items(L[1][0][1]):
        _, X, seg, conds = L[1][0]
        if ids:
            return seg == ("item", ("key", BV, ("str", "id"))) and not conds
        return tuple(conds) == (same_id(BV, i),)
    return False


def next_of(t, i):
    """The first account with the id, or an empty mapping if there is none"""
    return t[:2] == ("call", "next") and len(t[2]) == 2 and t[2][1] == ("dict", ()) and lists_by(t[2][0], i) and (
        t[2][0][0] == "filter" or t[2][0][1][0][2] == ("item", BV))


def methods(ck):
    """All methods of EventsContainer and its subclasses (own code)."""
    root = ck.prog.find_class(CLS).qual
    out = []
    for q, c in sorted(ck.prog.classes.items()):
        if not q.startswith("composite.") and root in ck.prog.mro(q):
            out += [(q, m, f) for m, f in c.methods.items()]
    return out
