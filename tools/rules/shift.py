"""The transfer end to end: activity, processor and rate function in one graph (shared by C01, C02, C03)."""

import terms as T
from lib import CONFIGS, D_, O_, P_, SELF, attr, fail, imprecise, undecided
from rules.common import activities, short

ID = attr(SELF, "id_")
RES_ID = ("fstr", (ID, ("str", "_reservations")))
BOOKED = attr(SELF, "reserved_amount")


def shift(ck):
    return next(q for q in activities(ck) if short(q) == "ShiftAmountActivity")


def graph(ck, config):
    """Main process with the processor's transfer in line; the rate functions stay opaque."""
    return ck.activity(shift(ck), transparent=("process",), config=config)


def roles(config):
    alias = CONFIGS[config][0]
    return tuple(alias.get(r, r) for r in (P_, O_, D_))


def content(e):
    """(direction, container owner, id, amount) of a put or get on a container, else None."""
    if e.kind == "call" and e.name in ("put", "get") and e.recv is not None:
        r = e.recv
        if r[0] == "attr" and r[2] == "container":
            return e.name, r[1], e.arg("id_"), e.arg("amount")
        if e.arg("amount") is not None:
            return e.name, r, e.arg("id_"), e.arg("amount")
    return None


def is_reservation(i):
    """Is the container id that of a reservation account?  True / False / None"""
    if i is None:
        return None
    if i == RES_ID:
        return True
    if i == ID:
        return False
    if i[0] == "str" and i[1].endswith("_reservations"):
        return True
    if i[0] == "fstr":
        return i[1][-1] == ("str", "_reservations") or None
    return None


def determined(t):
    """The arguments of a determine_processor_amount result, else None."""
    if t[0] == "stale":
        t = t[1]
    if t[0] == "res" and t[2] == "determine_processor_amount":
        return dict(t[4])
    return None


def rate_result(t, i):
    """The rate function's result of which t is the i-th component, else None."""
    if t[0] == "key" and t[2] == T.num(i) and t[1][0] == "res" and t[1][2] in ("loading", "unloading", "<call>"):
        return t[1]
    return None
