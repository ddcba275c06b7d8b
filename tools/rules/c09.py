"""Chain typestate of sequential, while and repeat activities on their effect graphs.

Registration: one iteration over the sub-processes gives the first the fresh event stored as start_sequence and every
other one the completion of its direct predecessor (value terms of start_event_parent), and sets up every nested
activity once.  The constructor sets this up exactly once; while running, start_sequence is triggered only between
the own START and STOP entries, and the own STOP entry (or a new pass) needs a complete pass in which the completion
of every sub-process was awaited.  Every kind of activity
awaits the signal of its parent before its work, and the completion of an activity denotes that of all its processes.
"""

from rules.chain import bound_registration, common, constructor, registration, signal_and_end
from rules.common import short, structural
from lib import fail

LEVEL = "other"


def run(ck):
    for q, kind in structural(ck):
        if kind != "sequential":
            continue
        ck.ob("constructor sets up the chain", short(q), lambda: constructor(ck, q, kind))
        ck.ob("chain of start signals", short(q), lambda: registration(ck, ck.graph(q, bound_registration(ck, q)), kind))
        ck.ob("start signal and end", short(q), lambda: signal_and_end(ck, ck.activity(q), kind))
    common(ck)
