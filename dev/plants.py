"""Planted bugs: source of /verif/seeded (see plant.py)."""
PRELUDE = '''"""Demonstration: exits 0 when the property holds on this tree."""
import datetime
import logging

import pandas as pd
import shapely.geometry
import simpy

import openclsim.core as core
import openclsim.model as model
import openclsim.plugins as plugins

T0 = datetime.datetime(1970, 1, 1)


class Site(core.Identifiable, core.Log, core.Locatable, core.HasContainer, core.HasResource):
    pass


class MultiSite(core.Identifiable, core.Log, core.Locatable, core.HasMultiContainer, core.HasResource):
    pass


class Vessel(core.Identifiable, core.ContainerDependentMovable, core.Processor, core.HasResource,
             core.LoadingFunction, core.UnloadingFunction):
    pass


class MultiVessel(core.Identifiable, core.MultiContainerDependentMovable, core.Processor, core.HasResource,
                  core.LoadingFunction, core.UnloadingFunction):
    pass


def seconds(entry):
    return (entry["Timestamp"] - T0).total_seconds()


def log_of(obj, **label):
    return [(seconds(e), e["ActivityState"], e["ActivityLabel"].get("ref")) for e in obj.logbook]


def site(env, name="site", x=0.0, capacity=100, level=0, nr=1):
    return Site(env=env, name=name, id=name, geometry=shapely.geometry.Point(x, 0), capacity=capacity, level=level,
                nr_resources=nr)


def vessel(env, name="vessel", x=0.0, capacity=100, level=0, rate=1, v=10, man=0, nr=1):
    return Vessel(env=env, name=name, id=name, geometry=shapely.geometry.Point(x, 0), capacity=capacity, level=level,
                  compute_v=lambda f: v, loading_rate=rate, unloading_rate=rate, load_manoeuvring=man,
                  unload_manoeuvring=man, nr_resources=nr)


def basic(env, reg, name, duration=10, cls=model.BasicActivity, **kw):
    return cls(env=env, registry=reg, name=name, id=name, duration=duration, **kw)


'''

PLANTS = []


def plant(id, prop, edits, needs, breaks, demo, **kw):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


SHIFT = "model/shift_amount_activity.py"
PROC = "core/processor.py"
BASE = "model/base_activities.py"

plant("c01-put-clamped", "C01", [(PROC, '''        obj = obj_map[activity]
''', '''        obj = obj_map[activity]
        if activity == "put":
            # never put more in the destination than it can hold
            free = obj.container.get_capacity(id_) - obj.container.get_level(id_)
            amount = min(amount, free)
''')],
      "two transfers into the same destination at the same time (nr_resources=2), together more than the free space",
      "content disappears: the origin loses more than the destination gains",
      '''
env = simpy.Environment()
reg = {}
a, b = site(env, "a", capacity=100, level=60), site(env, "b", capacity=100, level=60)
dest = site(env, "dest", capacity=100, level=0, nr=2)
acts = []
for s, crane in ((a, vessel(env, "c1")), (b, vessel(env, "c2", rate=2))):
    acts.append(model.ShiftAmountActivity(env=env, registry=reg, name="shift " + s.name, processor=crane, origin=s,
                                          destination=dest, amount=60, phase="loading"))
model.register_processes(acts)
env.run()
total = a.container.get_level() + b.container.get_level() + dest.container.get_level()
assert total == 120, total
''')

plant("c03-second-check", "C03", [(SHIFT, '''                self.requested_resources, self.origin.resource
            )
            if self.origin.container.get_level(self.id_) < amount:
''', '''                self.requested_resources, self.origin.resource
            )
            if self.origin.container.get_level(self.id_) <= 0:
''')],
      "content leaves the origin while the transfer waits for the origin's resource, but not all of it",
      "the transfer takes more than is there and the origin's level becomes negative",
      '''
env = simpy.Environment()
reg = {}
a, b, crane = site(env, "a", level=50), site(env, "b"), vessel(env, "crane")


def other():
    with a.resource.request() as req:
        yield req
        yield env.timeout(10)
        a.container.get(20)
        yield env.timeout(10)


env.process(other())
shift = model.ShiftAmountActivity(env=env, registry=reg, name="shift", processor=crane, origin=a, destination=b,
                                  amount=50, duration=5)
model.register_processes([shift])
low = []
while env.peek() != float("inf") and env.now < 1000:
    env.step()
    low.append(a.container.get_level())
assert min(low) >= 0, min(low)
''')

plant("c05-one-event-per-change", "C05", [("core/events_container.py", '''            if event_status and not event.triggered:
                event.succeed()
''', '''            if event_status and not event.triggered:
                event.succeed()
                # a change of level triggers one event
                break
''')],
      "two container events whose levels are both passed by one change of the level",
      "the second waiting party is not told that its level has been reached",
      '''
env = simpy.Environment()
s = site(env, "s", capacity=100, level=0)
e1 = s.container.get_container_event(level=10, operator="ge")
e2 = s.container.get_container_event(level=20, operator="ge")


def filler():
    yield env.timeout(5)
    yield s.container.put(30)


env.process(filler())
env.run(until=10)
assert e1.triggered and e2.triggered, (e1.triggered, e2.triggered)
''')

plant("c06-first-kept-only", "C06", [(BASE, '''            if isinstance(kept_resource, list):
                if resource in [item.resource for item in kept_resource]:
                    return
''', '''            if isinstance(kept_resource, list):
                if kept_resource and resource == kept_resource[0].resource:
                    return
''')],
      "an activity told to keep the resources of two objects",
      "the resource of the second kept object is given back at the end of the activity",
      '''
env = simpy.Environment()
reg = {}
a, b, crane = site(env, "a", level=50), site(env, "b"), vessel(env, "crane")
held = {}
shift = model.ShiftAmountActivity(env=env, registry=reg, name="shift", processor=crane, origin=a, destination=b,
                                  amount=50, duration=5, requested_resources=held, keep_resources=[a, crane])
model.register_processes([shift])
env.run()
assert a.resource.count == 1 and crane.resource.count == 1 and b.resource.count == 0, (
    a.resource.count, crane.resource.count, b.resource.count)
''')

plant("c08-parallel-label", "C08", [("model/parallel_activity.py", '"ref": subprocess_ids.pop(i),', '"ref": subprocess_ids.pop(0),')],
      "a parallel activity in which a later sub-process finishes before an earlier one",
      "the STOP entry carries the id of a sub-process that is still running",
      '''
env = simpy.Environment()
reg = {}
p = model.ParallelActivity(env=env, registry=reg, name="p",
                           sub_processes=[basic(env, reg, "slow", 10), basic(env, reg, "fast", 5)])
model.register_processes([p])
env.run()
stops = [x for x in log_of(p) if x[1] == "STOP" and x[2]]
assert stops == [(5, "STOP", "fast"), (10, "STOP", "slow")], stops
''')

plant("c13-any-namesake", "C13", [(BASE, '''                return self.env.all_of(
                    [activity_item.main_process for activity_item in activity_]
                )
''', '''                return self.env.any_of(
                    [activity_item.main_process for activity_item in activity_]
                )
''')],
      "two activities registered under the same name, one of them slower",
      "an activity expression is fulfilled by the first of the activities with that name",
      '''
env = simpy.Environment()
reg = {}
model.register_processes([basic(env, reg, "x", 5)])
y = model.BasicActivity(env=env, registry=reg, name="x", duration=20)
model.register_processes([y])
b = basic(env, reg, "b", 1, start_event=[{"type": "activity", "state": "done", "name": "x"}])
b.start_event[0]["name"] = "x"
# not by id: the id of the first is its name as well
reg["id"].pop("x")
model.register_processes([b])
env.run()
assert [t for t, s, _ in log_of(b) if s == "START"] == [20], log_of(b)
''')

plant("c14-last-namesake", "C14", [(BASE, '''        self.registry.setdefault("name", {}).setdefault(self.name, set()).add(self)
''', '''        self.registry.setdefault("name", {})[self.name] = {self}
''')],
      "two activities with the same name that are registered in two calls",
      "the first activity can no longer be found under its name",
      '''
env = simpy.Environment()
reg = {}
a = model.BasicActivity(env=env, registry=reg, name="x", duration=20)
b = model.BasicActivity(env=env, registry=reg, name="x", duration=5)
model.register_processes([a])
model.register_processes([b])
assert reg["name"]["x"] == {a, b}, reg["name"]["x"]
''')

plant("c15-skipped", "C15", [("model/helpers.py", '''            try:
                item.register_process()
                registerd_items.append(item)
            except Exception as e:
                logger.info(e)
''', '''            try:
                item.register_process()
            except Exception as e:
                logger.info(e)
            registerd_items.append(item)
''')],
      "an activity whose start expression names an activity that stands later in the list or does not exist",
      "such an activity is skipped silently",
      '''
env = simpy.Environment()
reg = {}


class Sub(model.BasicActivity):
    fail = 1

    def register_process(self):
        if self.fail:
            self.fail -= 1
            raise Exception("not yet")
        super().register_process()


a = basic(env, reg, "a", 5, cls=Sub)
model.register_processes([a])
env.run()
assert len(a.logbook) == 2, a.logbook
''')

plant("c16-post-order", "C16", [(BASE, '''        for item in self.plugins:
            yield from item["plugin"].post_process(*args, **kwargs)
''', '''        for item in reversed(self.plugins):
            yield from item["plugin"].post_process(*args, **kwargs)
''')],
      "an activity with two plugins that both do something after the work",
      "post-processing runs in descending priority",
      '''
env = simpy.Environment()
reg = {}
calls = []


class P(model.AbstractPluginClass):
    def __init__(self, name):
        self.name = name

    def post_process(self, *args, **kwargs):
        calls.append(self.name)
        return {}


a = basic(env, reg, "a", 5)
a.register_plugin(P("second"), priority=2)
a.register_plugin(P("first"), priority=1)
model.register_processes([a])
env.run()
assert calls == ["first", "second"], calls
''')

plant("c17-delay-base", "C17", [("plugins/delay.py", '''        self, env, activity_log, activity, start_activity, *args, **kwargs
    ):''', '''        self, env, activity_log, activity, start_preprocessing, *args, **kwargs
    ):'''), ("plugins/delay.py", "(env.now - start_activity)", "(env.now - start_preprocessing)")],
      "an activity that has a delay and whose pre-processing (weather) takes time",
      "the delay is computed over the waiting time as well",
      '''
env = simpy.Environment()
reg = {}


class Act(plugins.HasDelayPlugin, model.BasicActivity):
    pass


class Wait(model.AbstractPluginClass):
    def __init__(self):
        pass

    def pre_process(self, env, activity_log, activity, *args, **kwargs):
        return activity.delay_processing(env, {"type": "plugin", "ref": "w"}, activity_log, 100)


a = Act(env=env, registry=reg, name="a", duration=50, delay_percentage=10)
a.register_plugin(Wait(), priority=1)
model.register_processes([a])
env.run()
assert env.now == 155, env.now
''')

plant("c19-close-enough", "C19", [("core/movable.py", '''        # Set mover geometry to destination geometry
        self.geometry = shapely.geometry.shape(destination.geometry)
''', '''        # Set mover geometry to destination geometry
        if not self.is_at(destination):
            self.geometry = shapely.geometry.shape(destination.geometry)
''')],
      "a destination less than 100 m from the position of the mover",
      "the mover does not arrive: its geometry stays where it was",
      '''
env = simpy.Environment()
reg = {}
v = vessel(env, x=0.0)
s = site(env, x=0.0005)
m = model.MoveActivity(env=env, registry=reg, name="move", mover=v, destination=s)
model.register_processes([m])
env.run()
assert v.geometry.equals(s.geometry), v.geometry
''')

plant("c21-manoeuvring", "C21", [(PROC, "            duration = unloading_time + self.unload_manoeuvring * 60\n",
                                  "            duration = unloading_time + self.unload_manoeuvring\n")],
      "an unloading rate given as a function together with manoeuvring time",
      "the manoeuvring minutes are taken as seconds",
      '''
env = simpy.Environment()
reg = {}
a, b = vessel(env, "a", level=50, rate=lambda x, y: 10, man=2), site(env, "b")
s = model.ShiftAmountActivity(env=env, registry=reg, name="shift", processor=a, origin=a, destination=b, amount=10,
                              phase="unloading")
model.register_processes([s])
env.run()
assert env.now == 130, env.now
''')


plant("c02-booking-id", "C02", [(PROC, '''                origin.container.get_capacity(id_),
                destination.container.get_capacity(id_),
            )
''', '''                origin.container.get_capacity(id_),
                destination.container.get_capacity(),
            )
''')],
      "a transfer without a fixed amount, of a container id other than the default one",
      "the booking is taken from another container's capacity (0 when there is no such container)",
      '''
env = simpy.Environment()
reg = {}
kw = dict(geometry=shapely.geometry.Point(0, 0))
a = MultiSite(env=env, name="a", initials=[{"id": "sand", "capacity": 50, "level": 50}], **kw)
b = MultiSite(env=env, name="b", initials=[{"id": "sand", "capacity": 80, "level": 0}], **kw)
s = model.ShiftAmountActivity(env=env, registry=reg, name="shift", processor=vessel(env), origin=a, destination=b,
                              duration=5, id_="sand")
model.register_processes([s])
assert b.container.get_level("sand_reservations") == 50, b.container.get_level("sand_reservations")
env.run()
assert b.container.get_level("sand") == 50
''')

plant("c03-origin-kept-on-retry", "C03", [(SHIFT, '''                self._release_resource(
                    self.requested_resources,
                    self.processor.resource,
                )
                self._release_resource(
                    self.requested_resources,
                    self.origin.resource,
                )
                continue
''', '''                self._release_resource(
                    self.requested_resources,
                    self.processor.resource,
                )
                continue
''')],
      "content leaves the origin while the transfer waits for the origin's resource, and another user takes the processor "
      "next and then needs the origin",
      "the transfer keeps the origin's resource while it waits again, and blocks the other user for good",
      '''
env = simpy.Environment()
reg = {}
a, b, crane = site(env, "a", level=50), site(env, "b"), vessel(env, "crane")


def taker():
    with a.resource.request() as req:
        yield req
        yield env.timeout(10)
        a.container.get(20)


def other():
    yield env.timeout(5)
    with crane.resource.request() as req:
        yield req
        with a.resource.request() as req2:
            yield req2
            yield env.timeout(1)


env.process(taker())
env.process(other())
shift = model.ShiftAmountActivity(env=env, registry=reg, name="shift", processor=crane, origin=a, destination=b,
                                  amount=50, duration=5)
model.register_processes([shift])
env.run(until=1000)
assert b.container.get_level() == 30, b.container.get_level()
''')

plant("c04-reservation-anywhere", "C04", [("core/events_container.py", '''            item["id"]
            for item in self.items
            if not item["id"].endswith("_reservations")
''', '''            item["id"]
            for item in self.items
            if "_reservations" not in item["id"]
''')],
      "a container id that contains, but does not end in, '_reservations'",
      "the container list and the total level leave that container out",
      '''
env = simpy.Environment()
a = MultiSite(env=env, name="a", geometry=shapely.geometry.Point(0, 0),
              initials=[{"id": "x", "capacity": 5, "level": 1}, {"id": "x_reservations_2", "capacity": 5, "level": 1}])
assert a.container.container_list == ["x", "x_reservations_2"], a.container.container_list
''')

plant("c07-parallel-start", "C07", [("model/parallel_activity.py", '''        yield from self.pre_process(args_data)

        start_time_parallel = env.now

        activity_log.log_entry_v1(
            t=env.now,
            activity_id=activity_log.id,
            activity_state=core.LogState.START,
        )

''', '''        activity_log.log_entry_v1(
            t=env.now,
            activity_id=activity_log.id,
            activity_state=core.LogState.START,
        )

        yield from self.pre_process(args_data)

        start_time_parallel = env.now

''')],
      "a parallel activity with a plugin whose pre-processing takes time",
      "the START entry is written before pre-processing, so that waiting counts as work",
      '''
env = simpy.Environment()
reg = {}


class Wait(model.AbstractPluginClass):
    def pre_process(self, env, activity_log, activity, *args, **kwargs):
        return activity.delay_processing(env, {"type": "plugin", "ref": "w"}, activity_log, 100)


p = model.ParallelActivity(env=env, registry=reg, name="p", sub_processes=[basic(env, reg, "b", 10)])
p.register_plugin(Wait())
model.register_processes([p])
env.run()
assert [x[0] for x in log_of(p) if x[1] == "START" and x[2] is None] == [100], log_of(p)
''')

plant("c09-start-before-preprocess", "C09", [("model/sequential_activity.py", '''        yield from self.pre_process(args_data)

        start_sequence = env.now
''', '''        self.start_sequence.succeed()
        yield from self.pre_process(args_data)

        start_sequence = env.now
'''), ("model/sequential_activity.py", '''        self.start_sequence.succeed()

        for sub_process in self.sub_processes:
''', '''        for sub_process in self.sub_processes:
''')],
      "a sequence with a plugin whose pre-processing takes time",
      "the first sub-process starts while the sequence is still in its pre-processing",
      '''
env = simpy.Environment()
reg = {}


class Wait(model.AbstractPluginClass):
    def pre_process(self, env, activity_log, activity, *args, **kwargs):
        return activity.delay_processing(env, {"type": "plugin", "ref": "w"}, activity_log, 100)


b = basic(env, reg, "b", 10)
p = model.SequentialActivity(env=env, registry=reg, name="p", sub_processes=[b])
p.register_plugin(Wait())
model.register_processes([p])
env.run()
assert [x[0] for x in log_of(b) if x[1] == "START"] == [100], log_of(b)
''')

plant("c10-nested-start", "C10", [(BASE, '''            sub_process.start_event_parent = self.start_parallel

            if hasattr(sub_process, "register_subprocesses"):
                sub_process.register_subprocesses()
''', '''            sub_process.start_event_parent = self.start_parallel
''')],
      "a loop around a parallel activity that contains a sequence with a start event of its own",
      "from the second iteration on the activities in the sequence do not wait for the sequence to start",
      '''
env = simpy.Environment()
reg = {}
subs = [basic(env, reg, "s1", 10), basic(env, reg, "s2", 10)]
seq = model.SequentialActivity(env=env, registry=reg, name="seq", sub_processes=subs,
                               start_event={"type": "activity", "state": "done", "name": "x"})
par = model.ParallelActivity(env=env, registry=reg, name="par", sub_processes=[seq, basic(env, reg, "x", 3)])
loop = model.RepeatActivity(env=env, registry=reg, name="loop", sub_processes=[par], repetitions=2)
model.register_processes([loop])
env.run()
starts = [x[0] for x in log_of(subs[0]) if x[1] == "START"]
assert starts == [3, 26], starts
''')

plant("c11-iteration-limit", "C11", [("model/while_activity.py", "self.max_iterations = 1_000_000", "self.max_iterations = 100")],
      "a while activity that needs more than 100 iterations",
      "the loop ends although its condition event has not occurred",
      '''
env = simpy.Environment()
reg = {}
b = basic(env, reg, "b", 1)
loop = model.WhileActivity(env=env, registry=reg, name="loop", sub_processes=[b],
                           condition_event=[{"type": "time", "start_time": 150}])
model.register_processes([loop])
env.run(until=200)
n = len([x for x in log_of(b) if x[1] == "START"])
assert n > 145, n
''')

plant("c12-short-waits", "C12", [(BASE, "        if env.now > start_time:\n", "        if env.now - start_time > 1:\n")],
      "a start event that occurs at most one second after the waiting began",
      "the wait is not logged",
      '''
env = simpy.Environment()
reg = {}
b = basic(env, reg, "b", 10, start_event={"type": "time", "start_time": 0.5})
model.register_processes([b])
env.run()
assert [x[1] for x in log_of(b)] == ["WAIT_START", "WAIT_STOP", "START", "STOP"], log_of(b)
''')

plant("c18-minimum-edge", "C18", [("plugins/weather.py", 'data["cur"] = data["cur"] & (data[col] >= threshold[col])',
                                   'data["cur"] = data["cur"] & (data[col] > threshold[col])')],
      "a minimum criterion and a series that stays exactly at the limit for a while",
      "time at the limit itself counts as not workable",
      '''
from openclsim.plugins.weather import WeatherPluginActivity

df = pd.DataFrame({"ts": [0, 100, 200, 300, 400, 500], "h": [0.0, 2.0, 2.0, 2.0, 1.0, 0.0]})
crit = plugins.WeatherCriterion(name="c", condition="h", window_length=10, minimum=2.0)
w = WeatherPluginActivity(weather_criteria=crit, metocean_df=df)
r = w.check_constraint(0)
assert r[0] == 100, r
''')

plant("c20-cached-ids", "C20", [("core/movable.py", '''        for id_ in self.container.container_list:
            sum_level''', '''        for id_ in self.conainter_ids:
            sum_level''')],
      "a container that is added to a vessel after its construction",
      "the speed ignores the load in that container",
      '''
env = simpy.Environment()
v = MultiVessel(env=env, name="v", geometry=shapely.geometry.Point(0, 0), compute_v=lambda f: 10 - 8 * f,
                loading_rate=1, unloading_rate=1, initials=[{"id": "a", "capacity": 10, "level": 0}])
v.container.initialize_container([{"id": "b", "capacity": 10, "level": 10}])
assert v.v == 6, v.v
''')

plant("c22-repeat-dropped", "C22", [("core/log.py", '''            "ActivityLabel": activity_label,
        }
        self.logbook.append(entry)
''', '''            "ActivityLabel": activity_label,
        }
        if self.logbook and self.logbook[-1] == entry:
            return
        self.logbook.append(entry)
''')],
      "two identical entries directly after each other, e.g. two activities of zero duration with one id and an unchanged state",
      "the second entry is missing from the logbook",
      '''
env = simpy.Environment()
s = site(env)
for _ in range(2):
    s.log_entry_v1(t=0, activity_id="a", activity_state=core.LogState.UNKNOWN)
assert len(s.logbook) == 2, s.logbook
''')

plant("c23-first-node", "C23", [("core/locatable.py", '''        if self.node is not None:
            state["node"]''', '''        if self.node:
            state["node"]''')],
      "an object located at the node 0 of a graph with numbered nodes",
      "the logged state lacks the node",
      '''
env = simpy.Environment()
s = Site(env=env, name="s", geometry=shapely.geometry.Point(0, 0), node=0, capacity=10)
assert s.get_state().get("node") == 0, s.get_state()
''')

plant("c24-callable-manoeuvring", "C24", [("core/processor.py", "        self.load_manoeuvring = load_manoeuvring\n",
                                           "        self.load_manoeuvring = 0 if callable(loading_rate) else load_manoeuvring\n")],
      "a loading rate given as a function together with a manoeuvring time",
      "the manoeuvring time is ignored",
      '''
env = simpy.Environment()
v = vessel(env, rate=lambda a, b: 60, man=5)
assert v.load_manoeuvring == 5, v.load_manoeuvring
''')

plant("c25-shared-requests", "C25", [("model/single_run_process.py", "    requested_resources=None,\n", "    requested_resources={},\n")],
      "two single runs that use one site or vessel at the same time",
      "both share one mapping of held resources, so that the second works with what the first holds",
      '''
env = simpy.Environment()
reg = {}
v = vessel(env)
a = site(env, "a", level=100)
b = site(env, "b")
kw = dict(env=env, registry=reg, origin=a, destination=b, mover=v, loader=v, unloader=v)
r1, w1 = model.single_run_process(name="r1", **kw)
r2, w2 = model.single_run_process(name="r2", **kw)
assert r1[0].requested_resources is not r2[0].requested_resources
''')

plant("c28-chart-map", "C28", [("plot/step_chart.py", '''        container_map = {"default": ""}
''', '''        container_map = {}
    container_map.setdefault("default", "")
''')],
      "a step chart with a map that does not name the default container",
      "the map given by the user gets another entry",
      '''
import matplotlib
matplotlib.use("Agg")
from openclsim.plot import get_step_chart

env = simpy.Environment()
s = site(env, level=5)
s.log_entry_v1(t=0, activity_id="a", activity_state=core.LogState.START)
m = {"stone": "Stone"}
get_step_chart([s], m)
assert m == {"stone": "Stone"}, m
''')

plant("c29-ids-of-last-step", "C29", [("critical_path/dependencies_from_simpy_step.py", '''        self.data_cause_effect = []
''', '''        self.data_cause_effect = []
        self._ids_known = None
'''), ("critical_path/dependencies_from_simpy_step.py", '''            e_ids_before = set([t[2] for t in self._queue])
''', '''            e_ids_before = self._ids_known
            if e_ids_before is None:
                e_ids_before = set([t[2] for t in self._queue])
'''), ("critical_path/dependencies_from_simpy_step.py", '''        t_after = copy.deepcopy(self.now)
''', '''        self._ids_known = set([t[2] for t in self._queue])
        t_after = copy.deepcopy(self.now)
''')],
      "events scheduled from outside between two steps, e.g. a second process started after run(until=...)",
      "these events are recorded as caused by the event that happens to be processed next",
      '''
from openclsim.critical_path.dependencies_from_simpy_step import CriticalPathEnvironment


def proc(env):
    yield env.timeout(10, value="x")


env = CriticalPathEnvironment()
env.process(proc(env))
env.run(until=5)
start = env._eid
env.process(proc(env))
ids = [t[2] for t in env._queue]
n = len(env.data_cause_effect)
env.run()
new = env.data_cause_effect[n:]
assert not any(effect in ids for _, effect in new), (ids, new)
''')

plant("c31-unloader", "C31", [("model/single_run_process.py", "            processor=unloader,\n", "            processor=loader if loader is mover else unloader,\n")],
      "a vessel that loads itself but is unloaded by other equipment",
      "the vessel unloads itself, the unloader is never used",
      '''
env = simpy.Environment()
v, crane = vessel(env), vessel(env, "crane")
a, b = site(env, "a", level=100), site(env, "b")
r, w = model.single_run_process(env=env, registry={}, name="r", origin=a, destination=b, mover=v, loader=v, unloader=crane)
assert r[3].processor is crane
''')

plant("c32-level", "C32", [("io.py", '            ParentLevel += d["ParentLevel"]\n',
                            '            ParentLevel += [depth + 1] * len(d["ParentLevel"])\n')],
      "a tree of at least three levels",
      "deeper activities are exported with the depth of the second level",
      '''
from openclsim.io import get_tree_as_list

env = simpy.Environment()
reg = {}
b = basic(env, reg, "b")
s = model.SequentialActivity(env=env, registry=reg, name="s", id="s", sub_processes=[b])
t = model.SequentialActivity(env=env, registry=reg, name="t", id="t", sub_processes=[s])
r = get_tree_as_list([t])
assert dict(zip(r["ActivityID"], r["ParentLevel"])) == {"t": 0, "s": 1, "b": 2}, r["ParentLevel"]
''')

plant("c33-late-check", "C33", [(SHIFT, "        assert self.destination.is_at(self.origin)\n", "")],
      "a transfer to a destination that is elsewhere",
      "the error comes only after resources were requested and the start was logged",
      '''
env = simpy.Environment()
reg = {}
v = vessel(env, x=0.0)
a, b = site(env, "a", x=0.0, level=100), site(env, "b", x=1.0)
act = model.ShiftAmountActivity(env=env, registry=reg, name="shift", id="shift", processor=v, origin=a, destination=b, amount=10,
                                duration=10)
model.register_processes([act])
try:
    env.run()
    raise SystemExit("no error")
except AssertionError:
    pass
assert act.logbook == [] and b.resource.count == 0, (act.logbook, b.resource.count)
''')

plant("c34-planar", "C34", [("core/movable.py", '''        if distance_from_start > distance_from_end:
            coords''', '''        if start.distance(a) > end.distance(a):
            coords''')],
      "an edge at a high latitude, where degrees of longitude are short",
      "the edge is traversed starting at its further end",
      '''
from shapely.geometry import LineString, Point

line = LineString([(1.0, 80.0), (0.0, 80.5)])
r = core.movable.Routable.order_geometry(line, Point(0.0, 80.0))
assert r.coords[0] == (1.0, 80.0), list(r.coords)
''')

plant("c30-negative-dropped", "C30", [("critical_path/simulation_graph.py", "recorded_activities_df.duration != 0, :",
                                       "recorded_activities_df.duration > 0, :")],
      "a table with an activity that ends before it starts",
      "the activity is dropped silently, not rejected",
      '''
from openclsim.critical_path.simulation_graph import SimulationGraph

t = pd.Timestamp("2020-01-01")
h = pd.Timedelta(hours=1)
df = pd.DataFrame({"Activity": ["a", "b"], "SimulationObject": ["o", "o"], "start_time": [t, t + 2 * h], "state": ["ACTIVE"] * 2,
                   "duration": [h, -h], "end_time": [t + h, t + h], "cp_activity_id": ["1", "2"]})
try:
    SimulationGraph(df, [])
except ValueError:
    pass
else:
    raise AssertionError("accepted")
''')

plant("c27-claimed-early", "C27", [("model/move_activity.py", """
        yield from self._request_resource(self.requested_resources, self.mover.resource)

        start_time""", """
        self.mover.activity_id = activity_log.id
        yield from self._request_resource(self.requested_resources, self.mover.resource)

        start_time"""), ("model/move_activity.py", """        start_mover = env.now
        self.mover.activity_id = activity_log.id
""", """        start_mover = env.now
""")],
      "two moves of the same vessel that are registered at the same time: the second one waits for the vessel",
      "the duration of the first move is attributed to the second",
      '''
env = simpy.Environment()
reg = {}
ship = vessel(env, "ship")
places = [site(env, "place %d" % i, x=float(i)) for i in (1, 2)]
acts = [model.MoveActivity(env=env, registry=reg, name=d.name, id=d.id, mover=ship, destination=d, duration=10) for d in places]
values = []
timeout = env.timeout
env.timeout = lambda delay=0, value=None: (values.append(value), timeout(delay, value))[1]
model.register_processes(acts)
env.run()
assert values == ["place 1", "place 2"], values
assert [e["ActivityID"] for e in ship.logbook] == ["place 1"] * 2 + ["place 2"] * 2, [e["ActivityID"] for e in ship.logbook]
''')

plant("c13-past-time", "C13", [(BASE, "return self.env.timeout(max(start - self.env.now, 0), value=self.id)",
                               "return self.env.timeout(abs(start - self.env.now), value=self.id)")],
      "a time that has passed when the expression is read: an activity that is repeated",
      "the activity waits although its start time has passed",
      '''
env = simpy.Environment()
reg = {}
work = basic(env, reg, "work", duration=10, start_event={"type": "time", "start_time": 5})
w = model.RepeatActivity(env=env, registry=reg, name="w", id="w", sub_processes=[work], repetitions=3)
model.register_processes([w])
env.run()
starts = [t for t, state, _ in log_of(work) if state == "START"]
assert starts == [5, 15, 25], starts
''')

GRAPH = '''
from openclsim.critical_path.simulation_graph import SimulationGraph


def critical(rows, dependencies):
    df = pd.DataFrame([{"Activity": n, "SimulationObject": "of " + n, "state": "ACTIVE", "start_time": s, "end_time": e, "duration": e - s,
                        "cp_activity_id": n} for n, s, e in rows])
    return sorted(SimulationGraph(df, dependencies).get_list_critical_activities())

'''

plant("c36-whole-seconds", "C36", [("critical_path/simulation_graph.py", '''        self.max_duration = nx.dag_longest_path_length(
            self.simulation_graph, weight="duration"
        )''', '''        self.max_duration = int(
            nx.dag_longest_path_length(self.simulation_graph, weight="duration")
        )''')],
      "durations that are no whole seconds, and a path less than one second shorter than the longest",
      "activities on a shorter path are reported critical",
      GRAPH + '''
assert critical([("a", 0, 10.6), ("b", 0.3, 10.6)], []) == ["a"]
assert critical([("a", 0, 10.6), ("b", 10.6, 20), ("c", 0.4, 10.6)], [("a", "b"), ("c", "b")]) == ["a", "b"]
''')

TABLE = '''
from openclsim.critical_path.base_cp import BaseCP


class Path(BaseCP):
    def get_dependency_list(self):
        return self.dependency_list


def path(rows, dependencies):
    """rows: object, activity, execution, start, end"""
    cp = Path(simpy.Environment(), [], [])
    cp.recorded_activities_df = pd.DataFrame([{
        "ActivityID": a, "Activity": "of " + a, "SimulationObject": o, "state": "ACTIVE", "start_time": pd.Timestamp(s, unit="s"),
        "end_time": pd.Timestamp(e, unit="s"), "duration": pd.Timedelta(e - s, unit="s"), "cp_activity_id": x}
        for o, a, x, s, e in rows])
    cp.dependency_list = dependencies
    return cp


'''

plant("c39-instant", "C39", [("critical_path/base_cp.py", '''        ].isin(critical_activities)
''', '''        ].isin(critical_activities) & (
            recorded_activity_df["duration"] > pd.Timedelta(seconds=1)
        )
''')],
      "an activity of a second or less on the critical path",
      "it is not marked as critical",
      TABLE + '''
df = path([("ship", "a", "1", 0, 10), ("ship", "b", "2", 10, 11)], [("1", "2")]).get_critical_path_df()
assert sorted(zip(df.cp_activity_id, df.is_critical)) == [("1", True), ("2", True)], df
''')

plant("c39-recorded-changed", "C39", [("critical_path/base_cp.py", "        recorded_activity_df = self.get_recorded_activity_df().copy()\n",
                                        "        recorded_activity_df = self.get_recorded_activity_df()\n")],
      "the recorded activities are looked at after the critical path was asked for",
      "they have another column",
      TABLE + '''
cp = path([("ship", "a", "1", 0, 10)], [])
before = list(cp.get_recorded_activity_df())
cp.get_critical_path_df()
assert list(cp.get_recorded_activity_df()) == before
''')

plant("c41-tolerance", "C41", [("critical_path/dependencies_from_simpy_step.py", "(recorded_activities_df.end_time == end_time)",
                                "(abs(recorded_activities_df.end_time - end_time) < 1)")],
      "an activity that is executed twice within a second",
      "its executions are not told apart and no dependencies are found",
      '''
from openclsim.critical_path.dependencies_from_simpy_step import CriticalPathEnvironment, DependenciesFromSimpy

env = CriticalPathEnvironment()
reg = {}
place = site(env)
a = model.BasicActivity(env=env, registry=reg, name="a", duration=0.5, additional_logs=[place])
whole = model.RepeatActivity(env=env, registry=reg, name="whole", sub_processes=[a], repetitions=3)
model.register_processes([whole])
env.run()
cp = DependenciesFromSimpy(env, [place], [whole])
assert len(cp.get_dependency_list()) == 2
''')

LOGGED = '''
from openclsim.critical_path.dependencies_from_recorded_activities import DependenciesFromRecordedActivities


def dependencies(*rows):
    """rows: object, execution, start, end, state"""
    cp = DependenciesFromRecordedActivities(simpy.Environment(), [], [])
    cp.recorded_activities_df = pd.DataFrame([{
        "ActivityID": x, "Activity": "of " + x, "SimulationObject": o, "state": state, "start_time": pd.Timestamp(s, unit="s"),
        "end_time": pd.Timestamp(e, unit="s"), "duration": pd.Timedelta(e - s, unit="s"), "cp_activity_id": x}
        for o, x, s, e, state in rows])
    return sorted(cp.get_dependency_list())

'''

plant("c40-waiting-anywhere", "C40", [("critical_path/dependencies_from_recorded_activities.py",
                                       '''                if "WAITING" in dependencies.loc[:, "state"].tolist():''',
                                       '''                if cp_act.state == "ACTIVE" and "WAITING" in dependencies.state.tolist():''')],
      "an object that waits twice in a row, for different things",
      "what ended the first waiting is not found",
      LOGGED + '''
assert dependencies(("ship", "w", 0, 10, "WAITING"), ("ship", "v", 10, 20, "WAITING"), ("site", "a", 0, 10, "ACTIVE")) == [
    ("a", "v"), ("w", "v")]
''')

plant("c40-single-waiting", "C40", [("critical_path/dependencies_from_recorded_activities.py",
                                      '''                if "WAITING" in dependencies.loc[:, "state"].tolist():''',
                                      '''                if dependencies.iloc[0].state == "WAITING":''')],
      "an object of which a waiting and another activity end at the same time, the waiting not first in the table",
      "the object is not found to have waited",
      LOGGED + '''
assert dependencies(("ship", "a", 0, 10, "ACTIVE"), ("ship", "w", 5, 10, "WAITING"), ("site", "b", 0, 10, "ACTIVE"), ("ship", "c", 10, 20, "ACTIVE")) == [
    ("a", "c"), ("b", "c"), ("w", "c")]
''')

CHART = '''
from openclsim.plot import get_gantt_chart, get_log_dataframe
from openclsim.plot.vessel_planning import get_segments


def bars(chart):
    """trace name -> (row, seconds from, to) of its bars"""
    out = {}
    for t in chart["data"]:
        bar = []
        for x, y in zip(t.x, t.y):
            if y is None:
                out.setdefault(t.name, []).append((bar[0][1], bar[0][0], bar[-1][0]))
                bar = []
            else:
                bar.append(((pd.Timestamp(x) - pd.Timestamp(T0)).total_seconds(), y))
    return {n: sorted(b) for n, b in out.items()}

'''

plant("c42-rows", "C42", [("plot/vessel_planning.py", '''        if len(vessel.log["Timestamp"]) > 0:
            df = get_log''', '''        names.append(vessel.name)
        if len(vessel.log["Timestamp"]) > 0:
            df = get_log'''), ("plot/vessel_planning.py", '''            dataframes.append(df)
            names.append(vessel.name)
''', '''            dataframes.append(df)
''')],
      "a concept with an empty log before one with entries",
      "the bars are drawn on the row of another object",
      CHART + '''
env = simpy.Environment()
reg = {}
idle, busy = site(env, "idle"), site(env, "busy")
a = basic(env, reg, "a", additional_logs=[busy])
model.register_processes([a])
env.run()
assert bars(get_gantt_chart([idle, busy], static=True))["a"] == [("busy", 0, 10)]
''')

plant("c42-reopened", "C42", [("plot/vessel_planning.py", '''            start = index
        elif''', '''            start = start or index
        elif''')],
      "an activity that is executed more than once",
      "its later bars begin at its first start",
      CHART + '''
env = simpy.Environment()
reg = {}
place = site(env, "place")
a = basic(env, reg, "a", additional_logs=[place])
b = basic(env, reg, "b", duration=5)
s = model.SequentialActivity(env=env, registry=reg, name="s", id="s", sub_processes=[a, b])
w = model.RepeatActivity(env=env, registry=reg, name="w", id="w", sub_processes=[s], repetitions=2)
model.register_processes([w])
env.run()
assert bars(get_gantt_chart([place], static=True))["a"] == [("place", 0, 10), ("place", 15, 25)]
''')

plant("c42-two-levels", "C42", [("plot/log_dataframe.py", '''        id_map = {act.id: act.name for act in get_subprocesses(id_map)}''',
                                 '''        id_map = {
            act.id: act.name
            for top in id_map
            for act in [top, *getattr(top, "sub_processes", [])]
        }''')],
      "an activity three levels below the one in id_map",
      "it is not named in the log table",
      CHART + '''
env = simpy.Environment()
reg = {}
place = site(env, "place")
a = model.BasicActivity(env=env, registry=reg, name="name of a", id="a", duration=10, additional_logs=[place])
s = model.SequentialActivity(env=env, registry=reg, name="s", id="s", sub_processes=[a])
w = model.RepeatActivity(env=env, registry=reg, name="w", id="w", sub_processes=[s], repetitions=2)
model.register_processes([w])
env.run()
assert set(get_log_dataframe(place, [w])["Activity"]) == {"name of a"}
''')

plant("c42-manual-entries", "C42", [("core/log.py", '''        df = df.dropna(how="all")''', '''        df = df.dropna(subset=df.columns.intersection(["Timestamp", "ActivityID"]))''')],
      "an entry that is not of an activity",
      "it is missing in the log",
      '''
env = simpy.Environment()
place = site(env, "place")
place.log_entry_v1(5, "a", core.LogState.START)
place.log_entry_v1(6)
place.log_entry_v1(7, "a", core.LogState.STOP)
assert [x["ActivityID"] for x in place.logbook] == ["a", None, "a"]
assert place.log["ActivityState"] == ["START", "UNKNOWN", "STOP"]
''')

IO = "io.py"

plant("c43-duration-rolls-over", "C43", [(IO, '''[x.total_seconds() for x in dt]''',
                                       '''[x.seconds + x.microseconds / 1e6 for x in dt]''')],
      "a range that takes more than a day",
      "the exported duration starts again at zero every day",
      '''
from openclsim.io import get_ranges_dataframe

env = simpy.Environment()
reg = {}
place = site(env, "place")
short = basic(env, reg, "short", duration=7, additional_logs=[place])
long = basic(env, reg, "long", duration=3 * 86400 + 5, additional_logs=[place])
model.register_processes([short, long])
env.run()
r = get_ranges_dataframe(place).set_index("Activity")
assert r["TimestampDt"]["short"] == 7
assert r["TimestampDt"]["long"] == 3 * 86400 + 5
''')

plant("c43-one-row-per-concept", "C43", [(IO, '''        mask = [hasattr(x, attr_name) for x in df["activity"]]
''', '''        # a concept that does the work itself is listed as processor only
        mask = [
            hasattr(x, attr_name)
            and (
                attr_name == "processor"
                or getattr(x, attr_name) is not getattr(x, "processor", None)
            )
            for x in df["activity"]
        ]
''')],
      "an activity with the same concept in two roles, as a vessel that loads itself",
      "the second role of the concept is not exported",
      '''
from openclsim.io import get_activity_resources

env = simpy.Environment()
reg = {}
place, ship = site(env, "place", level=50), vessel(env, "ship")
load = model.ShiftAmountActivity(env=env, registry=reg, name="load", id="load", processor=ship, origin=place, destination=ship,
                                 amount=10, duration=10)
sail = model.MoveActivity(env=env, registry=reg, name="sail", id="sail", mover=ship, destination=place)
seq = model.SequentialActivity(env=env, registry=reg, name="seq", id="seq", sub_processes=[sail, load])
r = get_activity_resources([seq])
rows = sorted(zip(r["ActivityID"], r["ConceptID"], r["ConceptMode"]))
assert rows == [("load", "place", "origin"), ("load", "ship", "destination"), ("load", "ship", "processor"),
                ("sail", "place", "destination"), ("sail", "ship", "mover")], rows
''')

plant("c43-namesakes", "C43", [(IO, '''    df["DestinationID"] = [x.id if x else None for x in destination]
''', '''    ids = {x.name: x.id for x in destination if x}
    df["DestinationID"] = [ids[x.name] if x else None for x in destination]
''')],
      "two destinations with the same name",
      "the exported destination of an activity is the one of another activity",
      '''
from openclsim.io import get_activities

env = simpy.Environment()
reg = {}
ship = vessel(env, "ship")
stock = site(env, "stock", level=50)
dumps = [site(env, "dump", x=x) for x in (1, 2)]
for i, d in enumerate(dumps):
    d.id = "dump %d" % i
acts = [model.MoveActivity(env=env, registry=reg, name="sail %d" % i, id="sail %d" % i, mover=ship, destination=d)
        for i, d in enumerate(dumps)]
df = get_activities(acts).set_index("ActivityID")
assert list(df["DestinationID"]) == ["dump 0", "dump 1"], list(df["DestinationID"])
assert list(df["DestinationName"]) == ["dump", "dump"]
''')

plant("c43-first-of-tree", "C43", [(IO, '''        log = get_ranges_dataframe(rowi["activity"])
''', '''        log = get_ranges_dataframe(rowi["activity"])
        # an activity that is repeated inside another one has its ranges already
        if rowi["ParentLevel"] > 1:
            log = log.drop_duplicates(subset=["TimestampStart"])
''')],
      "an activity two levels deep that takes no time and is repeated at once",
      "all but one of its ranges are missing",
      '''
from openclsim.io import get_activity_log

env = simpy.Environment()
reg = {}
place = site(env, "place")
nothing = basic(env, reg, "nothing", duration=0)
seq = model.SequentialActivity(env=env, registry=reg, name="seq", id="seq", sub_processes=[nothing])
w = model.RepeatActivity(env=env, registry=reg, name="w", id="w", sub_processes=[seq], repetitions=3)
model.register_processes([w])
env.run()
log = get_activity_log([w])
assert sorted(log[log["ActivityID"] == "nothing"]["trip"]) == [1, 2, 3], log
''')

plant("c43-file-of-leaves", "C43", [(IO, '''        df.to_csv(ofile, columns=keys, index=False)
''', '''        df.to_csv(ofile, columns=[k for k in keys if df[k].notna().any()], index=False)
''')],
      "a model in which no activity has a mover",
      "the columns of the mover are missing in the file",
      '''
import os
import tempfile

from openclsim.io import get_activities

env = simpy.Environment()
reg = {}
a = basic(env, reg, "a")
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "activities.csv")
    get_activities([a], f)
    r = pd.read_csv(f)
assert "MoverID" in r.columns and "OriginName" in r.columns and len(r) == 1, list(r.columns)
''')

plant("c42-no-length", "C42", [("plot/vessel_planning.py", """        elif "STOP" in row["activity_state"] and row["log_string"] == activity:
            x.extend""", """        elif "STOP" in row["activity_state"] and row["log_string"] == activity:
            if index <= start:
                continue
            x.extend""")],
      "an activity that takes no time",
      "it has no bar in the planning chart",
      '''
from openclsim.plot import get_gantt_chart

env = simpy.Environment()
reg = {}
a = basic(env, reg, "a", duration=0)
b = basic(env, reg, "b", duration=5)
seq = model.SequentialActivity(env=env, registry=reg, name="seq", id="seq", sub_processes=[a, b])
model.register_processes([seq])
env.run()
traces = {t.name: t for t in get_gantt_chart([a, b, seq], [a.id, b.id], static=True)["data"]}
bars = {n: sum(v is None for v in t.y) for n, t in traces.items()}
assert bars == {"a": 1, "b": 1}, bars
''')

plant("c43-no-length", "C43", [(IO, """        s["TimestampDt"] = [x.total_seconds() for x in dt]
""", """        s["TimestampDt"] = [x.total_seconds() for x in dt]
        s = s[(s["TimestampDt"] > 0) | s["TimestampStop"].isna()]
""")],
      "an activity that takes no time in one of its executions",
      "the execution has no range",
      '''
from openclsim.io import get_ranges_dataframe

env = simpy.Environment()
reg = {}
a = basic(env, reg, "a", duration=0)
w = model.RepeatActivity(env=env, registry=reg, name="w", id="w", sub_processes=[a], repetitions=2)
model.register_processes([w])
env.run()
df = get_ranges_dataframe(a)
assert list(df["trip"]) == [1, 2] and list(df["TimestampDt"]) == [0, 0], df
''')

plant("c28-charts-sort", "C28", [("plot/step_chart.py", """        container_list = obj.container.container_list
""", """        container_list = obj.container.container_list
        container_list.sort()
        obj.logbook.sort(key=lambda entry: entry["Timestamp"])
""")],
      "entries that are not in the order of their time in the logbook when a chart is made",
      "drawing a chart changes the order of the entries of an object",
      '''
import matplotlib

matplotlib.use("Agg")
from openclsim.plot import get_step_chart

env = simpy.Environment()
s = site(env, "s", level=10)
for t in (5, 0, 7):
    s.log_entry_v1(t=t, activity_id="a", activity_state=core.LogState.START)
before = [seconds(e) for e in s.logbook]
get_step_chart([s])
assert [seconds(e) for e in s.logbook] == before == [5, 0, 7], [seconds(e) for e in s.logbook]
''')
