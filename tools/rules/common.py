"""Shared specifications used by several properties."""

import terms as T
from lib import (CONFIGS, D_, ENV, O_, P_, SELF, Many, attr, d, expect, fail, imprecise, state_name, undecided)

SELF_ID = attr(SELF, "id")
GENERIC = "openclsim.model.base_activities.GenericActivity"


def activities(ck):
    """Concrete activity kinds: subclasses of GenericActivity with a main process."""
    root = ck.prog.find_class(GENERIC).qual
    out = []
    for q, c in sorted(ck.prog.classes.items()):
        if q.startswith("composite.") or q == root:
            continue
        if root in ck.prog.mro(q) and c.lookup("main_process_function") is not None:
            out.append(q)
    return out


def short(q):
    return q.rsplit(".", 1)[-1]


def log_call(e):
    """(receiver, state name, time, id, label) of a log_entry_v1 effect, else None."""
    if e.kind == "call" and e.name == "log_entry_v1":
        s = state_name(e.arg("activity_state"))
        return e.recv, s, e.arg("t"), e.arg("activity_id"), e.arg("activity_label")
    return None


def plain(label):
    return label in (None, T.NONE, ("dict", ()))


def label_ref(label):
    """(type, ref) of a literal label, else None."""
    if isinstance(label, tuple) and label[0] == "dict":
        kv = {s[1]: s[2] for s in label[1] if s[0] == "kv"}
        return kv.get(("str", "type")), kv.get(("str", "ref"))
    return None


def now(e):
    return ("now", e.now)


def check_log(e, ident=SELF_ID, what="entry", t=None):
    """A log call carries the id and the time of the moment."""
    expect(e.arg("t"), t if t is not None else now(e), f"time of the {what}", e)
    expect(e.arg("activity_id"), ident, f"activity id of the {what}", e)


def is_request(t):
    return t[0] == "res" and t[2] == "request"


def is_waiting(t):
    """A yielded term that only waits for resources or for container levels (no work)."""
    if is_request(t):
        return True
    if t[0] == "res" and t[2] in ("get_container_event", "get_full_event", "get_empty_event"):
        return True
    if t[0] == "res" and t[2] in ("all_of", "any_of"):
        ev = dict(t[4]).get("events")
        if ev is not None and ev[0] in ("list", "tuple"):
            return all(s[0] == "item" and is_waiting(s[1]) for s in ev[1])
        if ev is not None and ev[0] == "list":
            return False
    return False


def passes_time(e):
    return e.kind in ("yield", "yieldfrom")


def is_work(e):
    """Effects that are the work of an activity (everything that passes time except waiting and plugins)."""
    if e.kind == "yieldfrom":
        return e.name not in ("pre_process", "post_process", "_request_resource")
    if e.kind == "yield":
        return not is_waiting(e.val)
    return False


def short_state(q):
    return q


def contradicts(e, atom_fact):
    a, v = atom_fact
    return e.facts.get(a) == (not v)


def known_empty(facts, X):
    """Do the facts say the collection X is empty (or None)?"""
    if facts.get(T.truth(X)) is False:
        return True
    if facts.get(T.isnone(X)) is True:
        return True
    z = T.eq0(("len", X))
    if facts.get(z) is True or facts.get(T.lt0(T.neg(("len", X)))) is False:
        return True
    return False


def elem_source(t):
    """(collection, loop) when t is a loop element."""
    if t[0] == "at":
        return t[1], t[2], t[3]
    return None


# ---------------------------------------------------------------- completion of an activity
def done_exprs(x):
    """Expressions of the language that mean "activity x is done"."""
    out = []
    for k, a in (("name", "name"), ("ID", "id")):
        e = d(("type", ("str", "activity")), ("state", ("str", "done")), (k, attr(x, a)))
        out.append(e)
    both = d(("type", ("str", "activity")), ("state", ("str", "done")), ("name", attr(x, "name")), ("ID", attr(x, "id")))
    return out + [both]


def unwrap_expr(t):
    """[e], {'and': [e]}, {'or': [e]} with a single part mean e."""
    while True:
        if t[0] in ("list",) and len(t[1]) == 1 and t[1][0][0] == "item":
            t = t[1][0][1]
        elif t[0] == "dict" and len(t[1]) == 1 and t[1][0][0] == "kv" and t[1][0][1] in (("str", "and"), ("str", "or")):
            t = t[1][0][2]
        else:
            return t


def parsed(v):
    """The expression term of a parse_expression result, else None."""
    if isinstance(v, tuple) and v[0] == "stale":
        v = v[1]
    if isinstance(v, tuple) and v[0] == "res" and v[2] == "parse_expression":
        return dict(v[4]).get("expr")
    return None


def is_done_event(v, x):
    """Does the event term v mean that activity x is done?"""
    if v[0] == "vol" and v[2] == x and v[3] == "main_process":
        return True
    if v == attr(x, "main_process"):
        return True
    e = parsed(v)
    if e is not None:
        u = unwrap_expr(e)
        return u in done_exprs(x) or (u[0] == "vol" and u[2] == x and u[3] == "main_process")
    if v[0] == "res" and v[2] in ("all_of", "any_of"):
        ev = dict(v[4]).get("events")
        if ev is not None and ev[0] == "list" and len(ev[1]) == 1 and ev[1][0][0] == "item":
            return is_done_event(ev[1][0][1], x)
    return False


def root_source(X):
    while isinstance(X, tuple) and X[0] in ("some", "without", "stale", "filter"):
        X = X[1]
    return X


SUBS = attr(SELF, "sub_processes")


def sub_label(label):
    """ref of a {"type": "subprocess", "ref": ...} label, else None."""
    lr = label_ref(label)
    if lr and lr[0] == ("str", "subprocess"):
        return lr[1]
    return None


def structural(ck):
    """[(class, 'sequential' | 'parallel')] by the registration the constructor selects."""
    out = []
    root = ck.prog.find_class("openclsim.model.base_activities.RegisterSubProcesses").qual
    for q in activities(ck):
        if root in ck.prog.mro(q):
            out.append((q, "parallel" if "arallel" in short(q) else "sequential"))
    return out


def keeps(ck, q, names):
    """On every path of the constructor the attributes named like these parameters end up with what is given (a plain copy of a
    list counts).  names may map attributes to the parameters they are given by."""
    names = names if isinstance(names, dict) else {x: x for x in names}
    G = ck.graph(q, "__init__", opaque=("register_subprocesses", "register_sequential_subprocesses",
                                        "register_parallel_subprocesses", "register_process"))
    n = [0]

    def step(s, e):
        if e.kind == "setattr" and e.recv == SELF and e.name in names:
            v, par = e.val, ("param", names[e.name])
            n[0] += 1
            if v in (par, ("copy", par), ("list", (("splat", par),))):
                return tuple(sorted({**dict(s), e.name: True}.items()))
            if e.facts.get(T.isnone(par)) is True or e.facts.get(T.truth(par)) is False and v[0] in ("list", "dict", "tuple") and not v[1]:
                return tuple(sorted({**dict(s), e.name: True}.items()))
            undecided(f"the {e.name} of {short(q)}", e) if imprecise(v) else fail(
                f"the {e.name} of {short(q)} is {T.show(v)[:150]}, not what it is given", e)
        return s

    def at_exit(s, kind, v, st):
        if kind == "return":
            for a in names:
                if a not in dict(s):
                    fail(f"{short(q)} does not keep its {a}")
    ck.walk(G, (), step, at_exit)
    return n[0]
