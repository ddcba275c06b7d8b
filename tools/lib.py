"""Rule library: obligations, automata over effect graphs, value comparison, reporting."""

import json
import os
import time
import traceback

import terms as T
from engine import Engine, TooBig, Undecided, Violation, _has
from model import AnalysisBroken, Program

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SELF = ("param", "self")
ENV = ("env",)
LOGSTATE = "openclsim.core.log.LogState"

VOCAB = set("""log_entry_v1 log_entry_v0 log_entry move process get_container_event get_empty_event get_full_event
get_level get_capacity put get initialize_container update_container_events parse_expression pre_process post_process
delay_processing register_process delayed_process main_process_function determine_processor_amount
determine_reservation_amount make_container_reservation loading unloading compute_distance compute_duration get_state
is_at check_constraint process_data get_subprocesses register_processes register_plugin register_subprocesses
register_sequential_subprocesses register_parallel_subprocesses get_log_dataframe get_tree_as_list move_to_geometry
pass_linestring order_geometry move_over_route step""".split())

IMPRECISE = {"unk", "phi", "junk", "acc", "sofar", "deep", "loopvalue", "opcmp", "apply"}
FOREIGN = {"call", "mcall"}
STR_METHODS = {"startswith", "endswith", "lower", "upper", "strip", "split", "replace"}


def attr(b, *names):
    for n in names:
        b = ("attr", b, n)
    return b


P_, O_, D_ = attr(SELF, "processor"), attr(SELF, "origin"), attr(SELF, "destination")
# which roles of a transfer are the same object: name -> (alias, distinct objects)
CONFIGS = {
    "three objects": ({}, (P_, O_, D_)),
    "processor is origin": ({O_: P_}, (P_, D_)),
    "processor is destination": ({D_: P_}, (P_, O_)),
}


def distinct_of(objs):
    def f(a, b):
        if a == b or not (isinstance(a, tuple) and isinstance(b, tuple)):
            return False
        if a in objs and b in objs:
            return True
        if a[0] == b[0] == "attr" and a[2] == b[2] and a[2] in ("resource", "container"):
            return f(a[1], b[1])
        return False
    return f


def imprecise(t, known=()):
    """Does the term contain something the analysis does not understand?"""
    def bad(x):
        if x[0] in IMPRECISE:
            return True
        if x[0] in FOREIGN and x not in known:
            if x[0] == "mcall" and x[2] in STR_METHODS:
                return False
            return not (x[0] == "call" and isinstance(x[1], str) and "." not in x[1])
        if x[0] == "res" and len(x) > 2 and x[2] == "<call>":
            return True
        return False
    return isinstance(t, tuple) and _has(t, bad)


def subterms(t, acc=None):
    acc = [] if acc is None else acc
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            acc.append(t)
        for c in t:
            if isinstance(c, tuple):
                subterms(c, acc)
    return acc


def d(*kv):
    """Canonical dict literal term."""
    return ("dict", tuple(sorted((("kv", ("str", k), v) for k, v in kv), key=lambda s: T.tkey(s[1]))))


def lst(*items):
    return ("list", tuple(("item", i) for i in items))


def state_name(t):
    """LogState.X term -> 'X' (None if not a literal state)."""
    if isinstance(t, tuple) and len(t) == 3 and t[0] == "attr" and t[1] == ("class", LOGSTATE):
        return t[2]
    return None


class Many(list):
    """Several successor states of an automaton."""


def walk(G, init, step, at_exit=None, limit=400000):
    """Run an automaton over all paths; returns the number of (node, state) pairs visited.

    step(state, effect) -> next state | Many([...]) | None (path irrelevant from here)
    at_exit(state, kind, value, analysis state): called for every reachable exit.
    Violations get the witness path.
    """
    exits = {}
    for n, kind, val, s in G.exits:
        exits.setdefault(n, []).append((kind, val, s))
    start = (0, init)
    parent = {start: None}
    stack = [start]

    def trace(x, last=None):
        path = []
        while x is not None:
            p = parent[x]
            if p is not None and p[1] is not None:
                path.append(p[1].show())
            x = p[0] if p else None
        path.reverse()
        if last is not None:
            path.append(last.show())
        return path

    while stack:
        x = stack.pop()
        n, q = x
        if len(parent) > limit:
            raise TooBig("automaton product too large")
        for kind, val, s in exits.get(n, ()):
            if at_exit is not None:
                try:
                    at_exit(q, kind, val, s)
                except (Violation, Undecided) as v:
                    v.path = trace(x)
                    raise
        for eff, m in G.out[n]:
            if eff is None:
                nq = [q]
            else:
                try:
                    r = step(q, eff)
                except (Violation, Undecided) as v:
                    v.path = trace(x, eff)
                    if v.eff is None:
                        v.eff = eff
                    raise
                nq = r if isinstance(r, Many) else ([] if r is None else [r])
            for z in nq:
                y = (m, z)
                if y not in parent:
                    parent[y] = (x, eff)
                    stack.append(y)
    return len(parent)


def fail(msg, eff=None):
    raise Violation(msg, eff)


def undecided(msg, eff=None):
    raise Undecided(msg, eff)


def expect(got, want, what, eff=None, known=()):
    """got must be the term want (or one of several)."""
    wants = want if isinstance(want, (list, set, frozenset)) else [want]
    if got in wants:
        return
    if got is None:
        raise Violation(f"{what}: nothing given, expected {T.show(next(iter(wants)))}", eff)
    if imprecise(got, known):
        raise Undecided(f"{what}: cannot determine {T.show(got)[:160]}", eff)
    raise Violation(f"{what}: is {T.show(got)[:300]}, expected {' or '.join(T.show(w)[:200] for w in wants)}", eff)


class TooLong(BaseException):
    """The analysis of an obligation was given up."""


class Check:
    running = None      # the obligation at hand and when it began

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.prog = Program()
        self.t0 = time.time()
        self.obligations = []      # dicts
        self.violations = []
        self.undecided = []
        self.broken = []
        self.funcs = set()
        self.counts = {"graphs": 0, "nodes": 0, "automaton_states": 0}
        self.rules = []
        self._graphs = {}

    # ------------------------------------------------------------ graphs
    def graph(self, cls, meth, bindings=None, transparent=(), opaque=(), types=None, distinct=None, self_type=None,
              fn=None, volatile=None, setup=None, config=None):
        """Effect graph of a method (or of function fn) with the standard vocabulary."""
        prog = self.prog
        if fn is None:
            c = prog.find_class(cls) if "." not in cls else prog.classes.get(cls) or prog.find_class(cls)
            f = prog.find_method(cls, meth) if "." not in cls else c.lookup(meth)
            if f is None:
                raise AnalysisBroken(f"{cls}.{meth} not found")
            st = self_type or c.qual
        else:
            f, st = fn, self_type
        key = (f.qual, st, tuple(sorted((bindings or {}).items())), tuple(sorted(transparent)), tuple(sorted(opaque)),
               id(distinct), id(setup), config)
        if key in self._graphs:
            return self._graphs[key]
        e = Engine(prog, (VOCAB | set(opaque)) - set(transparent) - {f.name}, self_type=st, types=types)
        if f.name in VOCAB and f.name not in transparent:
            e.opaque.add(f.name)       # nested calls of the same vocabulary name stay opaque
        if distinct is not None:
            e.distinct_fn = distinct
        if config is not None:
            alias, objs = CONFIGS[config]
            e.alias.update(alias)
            e.distinct_fn = distinct_of(objs)
            for o in (P_, O_, D_):
                e.types.setdefault(o, self.vessel() if o == P_ else self.site())
        if volatile is not None:
            e.VOLATILE = e.VOLATILE | set(volatile)
        if setup is not None:
            setup(e)
        g = e.run(f, bindings or {})
        g.entry = f
        g.engine = e
        self.funcs |= e.funcs_seen
        self.counts["graphs"] += 1
        self.counts["nodes"] += len(g.out)
        for w, what in e.unknowns:
            g.unknown = (w, what)
        self._graphs[key] = g
        return g

    def composite(self, name, *bases):
        return self.prog.add_composite(name, bases)

    def vessel(self, multi=False):
        """A vessel as users compose it: loads, sails and holds a resource."""
        if multi:
            return self.composite("MultiVessel", "Identifiable", "MultiContainerDependentMovable", "Processor",
                                  "HasResource", "LoadingFunction", "UnloadingFunction")
        return self.composite("Vessel", "Identifiable", "ContainerDependentMovable", "Processor", "HasResource",
                              "LoadingFunction", "UnloadingFunction")

    def site(self):
        return self.composite("Site", "Identifiable", "Log", "Locatable", "HasContainer", "HasResource")

    def activity(self, qual, **kw):
        """Graph of an activity's main process (activity_log is the activity, env its environment)."""
        return self.graph(qual, "main_process_function", {"activity_log": SELF, "env": ENV}, **kw)

    def walk(self, G, init, step, at_exit=None):
        n = walk(G, init, step, at_exit)
        self.counts["automaton_states"] += n
        return n

    # ------------------------------------------------------------ obligations
    def ob(self, rule, instance, fn):
        """One obligation: fn() returns the number of constructs examined (None: not counted)."""
        rec = {"rule": rule, "instance": instance, "status": "discharged"}
        try:
            Check.running = (len(self.obligations), time.time())
            try:
                n = fn()
            finally:
                Check.running = None
            if n is not None:
                rec["examined"] = n
        except Violation as v:
            rec["status"] = "violated"
            self.report(rule, instance, v)
        except Undecided as u:
            rec["status"] = "undecided"
            self.undecided.append((rule, instance, u.msg, self.loc(u)))
        except TooBig as u:
            rec["status"] = "undecided"
            self.undecided.append((rule, instance, str(u), ""))
        except TooLong:
            rec["status"] = "undecided"
            self.undecided.append((rule, instance, "the analysis takes too long", ""))
        except MemoryError:
            rec["status"] = "undecided"
            self.undecided.append((rule, instance, "the analysis takes too much memory", ""))
        except AnalysisBroken as b:
            rec["status"] = "broken"
            self.broken.append((rule, instance, str(b)))
        except RecursionError as b:
            rec["status"] = "undecided"
            self.undecided.append((rule, instance, "recursion too deep", ""))
        except Exception as b:  # an analysis crash is never a verdict
            rec["status"] = "undecided"
            tb = traceback.format_exc().splitlines()[-3:]
            self.undecided.append((rule, instance, f"analysis error {type(b).__name__}: {b} {tb}", ""))
        self.obligations.append(rec)
        return rec["status"] == "discharged"

    def loc(self, v):
        e = v.eff
        if e is not None and getattr(e, "where", None):
            return f"{e.where[0]}:{e.where[1]} in {e.where[2]}"
        w = getattr(v, "where", None)
        return w or ""

    def report(self, rule, instance, v):
        self.violations.append({
            "property": self.pid, "rule": rule, "instance": instance, "message": v.msg, "where": self.loc(v),
            "path": getattr(v, "path", [])[-80:],
        })


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d_ = dict(x.split("=", 1) for x in line[len("finding:"):].split(" :: ")[0].split() if "=" in x)
                d_["text"] = line.split(" :: ", 1)[1] if " :: " in line else ""
                out.append(d_)
    return out

