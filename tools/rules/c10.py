"""Start-signal typestate of parallel activities on their effect graphs.

Registration gives every sub-process the same fresh event, stored as start_parallel, and sets up every nested activity
once; the constructor does this exactly once.  While running, that event is triggered once after the own START entry,
and the own STOP entry needs the set of awaited sub-processes to be exhausted, from which a sub-process is removed only
on a branch that found exactly that sub-process done.
"""

from rules.chain import bound_registration, common, constructor, registration, removed_only_done, signal_and_end
from rules.common import short, structural

LEVEL = "other"


def run(ck):
    for q, kind in structural(ck):
        if kind != "parallel":
            continue
        ck.ob("constructor sets up the signal", short(q), lambda: constructor(ck, q, kind))
        ck.ob("one signal for all", short(q), lambda: registration(ck, ck.graph(q, bound_registration(ck, q)), kind))
        ck.ob("start signal and end", short(q), lambda: signal_and_end(ck, ck.activity(q), kind))
        ck.ob("removed only when done", short(q), lambda: removed_only_done(ck, ck.activity(q)))
    common(ck)
