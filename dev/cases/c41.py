F = "critical_path/dependencies_from_simpy_step.py"
import subprocess
OLD = subprocess.run(["git", "-C", "/repo", "show", "ba6a3da:src/openclsim/" + F], capture_output=True, text=True).stdout
NEW = open("/repo/src/openclsim/" + F).read()
LOOP = NEW[NEW.index("        dependencies_openclsim = []\n"):NEW.index("        # get recorded activities and convert")]
LOC = '''        matching_ids = recorded_activities_df.loc[
            (
                (recorded_activities_df.ActivityID == activity_id)
                & (recorded_activities_df.end_time == end_time)
            ),
            "cp_activity_id",
        ]
'''
END = '''        recorded_activities_df.end_time = round(
            recorded_activities_df.end_time.astype("int64") / 10**9, 4
        )
'''
LAST = '''        self.dependency_list = [
            (
                self._find_cp_act(dependency[0], recorded_activities_df),
                self._find_cp_act(dependency[1], recorded_activities_df),
            )
            for dependency in dependencies_openclsim
        ]
'''
CASES = [
    ("bug", F, [(NEW, OLD)]),
    ("bug", F, [("last_seen.get(cause)", "last_seen.get(effect)")]),
    ("bug", F, [("event._delay > 0", "event._delay >= 0")]),
    ("bug", F, [("isinstance(event, simpy.events.Timeout)", "isinstance(event, simpy.events.Event)")]),
    ("bug", F, [("append((last_seen[effect], effect))", "append((cause, effect))")]),
    ("bug", F, [("if last_seen[effect] is not None and", "if last_seen.get(cause) is not None and")]),
    ("bug", F, [('"t0", "t1", "e_id"', '"t1", "t0", "e_id"')]),
    ("bug", F, [("(recorded_activities_df.end_time == end_time)", "(recorded_activities_df.start_time == end_time)")]),
    ("bug", F, [('loc[e_id, "t1"]', 'loc[e_id, "t0"]')]),
    ("bug", F, [("                (recorded_activities_df.ActivityID == activity_id)\n                & ", "                ")]),
    ("bug", F, [("self._find_cp_act(dependency[1], ", "self._find_cp_act(dependency[0], ")]),
    ("bug", F, [("in self.__cause_effect_list:", "in self.__cause_effect_list[1:]:")]),
    ("bug", F, [('set_index("e_id")', 'set_index("prio")')]),
    ("bug", F, [("last_seen[effect] = last_seen.get(cause)", "last_seen[effect] = None")]),
    ("bug", F, [('            "cp_activity_id",\n', '            "ActivityID",\n')]),
    ("bug", F, [(END, END.replace("10**9", "10**6"))]),
    ("bug", F, [(END, END.replace(", 4", ", 0"))]),
    ("bug", F, [(END, END.replace(", 4", ""))]),
    ("bug", F, [(END, END.replace("df.end_time.astype", "df.start_time.astype"))]),
    ("bug", F, [("recorded_activities_df = self.recorded_activities_df.copy()", "recorded_activities_df = self.recorded_activities_df")]),
    ("bug", F, [("if __is_relevant_timeout(cause):", "if __is_relevant_timeout(effect):")]),
    ("bug", F, [("t0, t1, e_id, type(event)", "t0, t0, e_id, type(event)")]),
    ("bug", F, [("t0, t1, e_id, type(event), event.value, prio, event)", "t0, t1, e_id, type(event), event.value, event, prio)")]),
    # the same behaviour
    ("same", F, [(LOC, '''        of_activity = recorded_activities_df.ActivityID == activity_id
        ended = recorded_activities_df.end_time == end_time
        matching_ids = recorded_activities_df[of_activity & ended]["cp_activity_id"]
''')]),
    ("same", F, [(LAST, '''        renamed = []
        for first, second in dependencies_openclsim:
            first_activity = self._find_cp_act(first, recorded_activities_df)
            second_activity = self._find_cp_act(second, recorded_activities_df)
            renamed.append((first_activity, second_activity))
        self.dependency_list = renamed
''')]),
    ("same", F, [(END, END.replace("recorded_activities_df.end_time", 'recorded_activities_df["end_time"]'))]),
    ("same", F, [('''            if __is_relevant_timeout(cause):
                last_seen[effect] = cause
            else:
                last_seen[effect] = last_seen.get(cause)
            if last_seen[effect] is not None and __is_relevant_timeout(effect):
                dependencies_openclsim.append((last_seen[effect], effect))
''', '''            origin = cause if __is_relevant_timeout(cause) else last_seen.get(cause)
            last_seen[effect] = origin
            if __is_relevant_timeout(effect) and origin is not None:
                dependencies_openclsim.append((origin, effect))
''')]),
    ("same", F, [('''            event = self.step_logging_dataframe.loc[elem, "event_object"]
            return isinstance(event, simpy.events.Timeout) and event._delay > 0
''', '''            event = self.step_logging_dataframe.loc[elem, "event_object"]
            if not isinstance(event, simpy.events.Timeout):
                return False
            return 0 < event._delay
''')]),
    ("same", F, [("self._find_cp_act(dependency[0], recorded_activities_df)", "self._find_cp_act(e_id=dependency[0], recorded_activities_df=recorded_activities_df)")]),
    ("same", F, [('''        activity_id = self.step_logging_dataframe.loc[e_id, "event_object"].value
        end_time = round(self.step_logging_dataframe.loc[e_id, "t1"], 4)
''', '''        step = self.step_logging_dataframe.loc[e_id]
        activity_id = step["event_object"].value
        end_time = round(step["t1"], 4)
''')]),
]

REL = '''            event = self.step_logging_dataframe.loc[elem, "event_object"]
            return isinstance(event, simpy.events.Timeout) and event._delay > 0
'''
FIND = '''        activity_id = self.step_logging_dataframe.loc[e_id, "event_object"].value
        end_time = round(self.step_logging_dataframe.loc[e_id, "t1"], 4)
'''
RES = '''        if len(set(matching_ids)) == 1:
            cp_activity_id = matching_ids.iloc[0]
        else:
            raise ValueError(
                f"No recorded activity found for"
                f" activityID {activity_id} at (end)time {end_time}"
                f" . Make sure to add `value=activity_id` to timeout events you yield."
            )
        return cp_activity_id
'''
STEP = '''        if len(self._queue):
            _, prio, e_id, event = self._queue[0]
            e_ids_before = set([t[2] for t in self._queue])
        else:
            _, prio, e_id, event = None, None, None, None
            e_ids_before = {}

        super().step()

        if len(self._queue):
            e_ids_new = list(set([t[2] for t in self._queue]) - e_ids_before)
        else:
            e_ids_new = []

        t_after = copy.deepcopy(self.now)

        self._monitor_cause_effect(e_id, e_ids_new)
        self._monitor_step(t_before, t_after, prio, e_id, event)
'''
MCE = '''        if len(e_ids_new) > 0:
            for new_eid in e_ids_new:
                self.data_cause_effect.append((e_id_current, new_eid))
'''
TO = '''        self.__cause_effect_list = copy.deepcopy(self.env.data_cause_effect)
'''
GETD = '''        self.get_recorded_activity_df()

        if self.dependency_list is None:
            self.__set_dependency_list()

        return self.dependency_list
'''
CASES += [
    ("bug", F, [(REL, REL.replace("event._delay > 0", "event._delay > 1"))]),
    ("bug", F, [(REL, REL.replace("event._delay > 0", "event._delay"))]) if False else
    ("bug", F, [(REL, REL.replace("and event._delay > 0", "and event._delay > 0 and event.value is not None"))]),
    ("bug", F, [(REL, REL.replace("isinstance(event, simpy.events.Timeout) and event._delay > 0", "type(event) is simpy.events.Timeout"))]),
    ("bug", F, [(REL, REL.replace("event._delay > 0", "event._delay >= 1e-3"))]),
    ("bug", F, [(REL, REL.replace("event._delay > 0", "self.step_logging_dataframe.loc[elem, \"t1\"] > self.step_logging_dataframe.loc[elem, \"t0\"]"))]),
    ("bug", F, [(REL, REL.replace(" and event._delay > 0", " or event._delay > 0"))]),
    ("bug", F, [(FIND, FIND.replace('"t1"], 4)', '"t1"])'))]),
    ("bug", F, [(FIND, FIND.replace('"t1"], 4)', '"t1"], 2)'))]),
    ("bug", F, [(FIND, FIND.replace('round(self.step_logging_dataframe.loc[e_id, "t1"], 4)', 'int(self.step_logging_dataframe.loc[e_id, "t1"])'))]),
    ("bug", F, [(FIND, FIND.replace('"event_object"].value', '"event_object"]._delay'))]),
    ("bug", F, [(RES, RES.replace("if len(set(matching_ids)) == 1:", "if len(matching_ids) == 1:"))]),
    ("bug", F, [(RES, RES.replace("if len(set(matching_ids)) == 1:", "if len(set(matching_ids)) <= 1:"))]),
    ("bug", F, [(RES, '''        if len(matching_ids) == 0:
            return None
        return matching_ids.iloc[0]
''')]),
    ("bug", F, [(RES, RES.replace("matching_ids.iloc[0]", "matching_ids.index[0]"))]),
    ("bug", F, [(STEP, STEP.replace("self._monitor_cause_effect(e_id, e_ids_new)", "self._monitor_cause_effect(e_id, e_ids_new[:1])"))]),
    ("bug", F, [(STEP, STEP.replace("self._queue[0]", "self._queue[-1]"))]),
    ("bug", F, [(STEP, STEP.replace("        super().step()\n", "").replace("        t_after =", "        super().step()\n        t_after ="))]),
    ("bug", F, [(STEP, STEP.replace("e_ids_before = set([t[2] for t in self._queue])", "e_ids_before = set([t[2] for t in self._queue[1:]])"))]),
    ("bug", F, [(STEP, STEP.replace("- e_ids_before)", "- e_ids_before - {e_id + 1})"))]),
    ("bug", F, [(STEP, STEP.replace("set([t[2] for t in self._queue]) - e_ids_before", "set([t[2] for t in self._queue if t[0] > self.now]) - e_ids_before"))]),
    ("bug", F, [(STEP, STEP.replace("set([t[2] for t in self._queue]) - e_ids_before", "set([t[2] for t in self._queue if t[1] > 0]) - e_ids_before"))]),
    ("bug", F, [(STEP, STEP.replace("        self._monitor_step(t_before", "        if t_after > t_before:\n            self._monitor_step(t_before"))]),
    ("bug", F, [(STEP, STEP.replace("        self._monitor_cause_effect(e_id", "        if isinstance(event, simpy.events.Timeout):\n            self._monitor_cause_effect(e_id"))]),
    ("bug", F, [(MCE, MCE.replace("len(e_ids_new) > 0", "len(e_ids_new) > 1"))]),
    ("bug", F, [(MCE, MCE.replace("(e_id_current, new_eid)", "(new_eid, e_id_current)"))]),
    ("bug", F, [(MCE, MCE.replace("self.data_cause_effect.append((e_id_current, new_eid))", "self.data_cause_effect.append((e_id_current, new_eid))\n                break"))]),
    ("bug", F, [(TO, "        self.__cause_effect_list = copy.deepcopy(self.env.data_cause_effect[:1000])\n")]),
    ("bug", F, [(TO, "        self.__cause_effect_list = sorted(self.env.data_cause_effect)\n")]) if False else
    ("bug", F, [(TO, "        self.__cause_effect_list = [\n            c for c in self.env.data_cause_effect if c[1] == c[0] + 1\n        ]\n")]),
    ("bug", F, [(TO, "        self.__cause_effect_list = list(dict(self.env.data_cause_effect).items())\n")]),
    ("bug", F, [("append((last_seen[effect], effect))", "append((effect, last_seen[effect]))")]),
    ("bug", F, [(LAST, LAST.replace("for dependency in dependencies_openclsim\n", "for dependency in dependencies_openclsim[1:]\n"))]),
    ("bug", F, [(LAST, LAST.replace("for dependency in dependencies_openclsim\n", "for dependency in dependencies_openclsim\n            if dependency[1] - dependency[0] > 1\n"))]),
    ("bug", F, [(LAST, "        self.dependency_list = list(\n            set(\n                (self._find_cp_act(a, recorded_activities_df), b)\n                for a, b in dependencies_openclsim\n            )\n        )\n")]),
    ("bug", F, [("            if __is_relevant_timeout(cause):\n                last_seen[effect] = cause\n            else:\n                last_seen[effect] = last_seen.get(cause)\n", "            last_seen[effect] = last_seen.get(cause)\n            if last_seen[effect] is None and __is_relevant_timeout(cause):\n                last_seen[effect] = cause\n")]),
    ("bug", F, [(GETD, GETD.replace("        if self.dependency_list is None:\n            self.__set", "        if not self.dependency_list and self.env.data_step:\n            self.__set").replace("return self.dependency_list", "return self.dependency_list[:-1]"))]),
    ("bug", F, [("                & (recorded_activities_df.end_time == end_time)\n", "                & (recorded_activities_df.end_time == end_time)\n                & (recorded_activities_df.SimulationObject == \"Activity\")\n                & (recorded_activities_df.duration.dt.total_seconds() > 1)\n")]),
    ("bug", F, [("                & (recorded_activities_df.end_time == end_time)\n", "                & (recorded_activities_df.end_time >= end_time)\n")]),
    ("bug", F, [("                & (recorded_activities_df.end_time == end_time)\n", "")]),
    ("same", F, [(REL, '''            event = self.step_logging_dataframe.loc[elem, "event_object"]
            if not isinstance(event, simpy.events.Timeout):
                return False
            return event._delay > 0
''')]),
    ("same", F, [(REL, REL.replace("self.step_logging_dataframe.loc[elem, \"event_object\"]", "self.step_logging_dataframe.at[elem, \"event_object\"]").replace("simpy.events.Timeout", "simpy.Timeout"))]),
    ("same", F, [(REL, REL.replace("event._delay > 0", "0 < event._delay"))]),
    ("same", F, [(FIND, '''        step = self.step_logging_dataframe.loc[e_id]
        activity_id = step["event_object"].value
        end_time = round(step["t1"], 4)
''')]),
    ("same", F, [(RES, '''        unique_ids = set(matching_ids)
        if len(unique_ids) != 1:
            raise ValueError(
                f"No recorded activity found for"
                f" activityID {activity_id} at (end)time {end_time}"
                f" . Make sure to add `value=activity_id` to timeout events you yield."
            )
        return matching_ids.iloc[0]
''')]),
    ("same", F, [(RES, '''        unique_ids = matching_ids.unique()
        if len(unique_ids) != 1:
            raise ValueError(f"No recorded activity found for {activity_id} at {end_time}")
        return unique_ids[0]
''')]),
    ("same", F, [(RES, '''        if matching_ids.nunique() == 1:
            return matching_ids.values[0]
        raise ValueError(f"No recorded activity found for {activity_id} at {end_time}")
''')]),
    ("same", F, [(STEP, '''        prio, e_id, event, e_ids_before = None, None, None, set()
        if self._queue:
            _, prio, e_id, event = self._queue[0]
            e_ids_before = {item[2] for item in self._queue}

        super().step()

        e_ids_new = [item[2] for item in self._queue if item[2] not in e_ids_before]
        t_after = self.now

        self._monitor_cause_effect(e_id, e_ids_new)
        self._monitor_step(t_before, t_after, prio, e_id, event)
''')]),
    ("same", F, [(STEP, STEP.replace("set([t[2] for t in self._queue])", "{t[2] for t in self._queue}"))]),
    ("same", F, [(STEP, STEP.replace("set([t[2] for t in self._queue])", "self._queued_ids()")), ("    def _monitor_step(self, t0", '''    def _queued_ids(self):
        """Ids of the events in the queue."""
        return {e_id for _, _, e_id, _ in self._queue}

    def _monitor_step(self, t0''')]),
    ("same", F, [(STEP, STEP.replace('''        self._monitor_cause_effect(e_id, e_ids_new)
        self._monitor_step(t_before, t_after, prio, e_id, event)
''', '''        self._monitor_step(t_before, t_after, prio, e_id, event)
        self._monitor_cause_effect(e_id, e_ids_new)
'''))]),
    ("same", F, [(MCE, '''        for new_eid in e_ids_new:
            self.data_cause_effect.append((e_id_current, new_eid))
''')]),
    ("same", F, [(MCE, '''        self.data_cause_effect.extend(
            (e_id_current, new_eid) for new_eid in e_ids_new
        )
''')]),
    ("same", F, [(MCE, '''        self.data_cause_effect += [(e_id_current, new_eid) for new_eid in e_ids_new]
''')]),
    ("same", F, [(TO, "        self.__cause_effect_list = list(self.env.data_cause_effect)\n")]),
    ("same", F, [(TO, "        self.__cause_effect_list = self.env.data_cause_effect.copy()\n")]),
    ("same", F, [(LOOP, '''        dependencies_openclsim = []
        last_timeout = {}
        for cause, effect in self.__cause_effect_list:
            source = cause if __is_relevant_timeout(cause) else last_timeout.get(cause)
            last_timeout[effect] = source
            if source is not None and __is_relevant_timeout(effect):
                dependencies_openclsim.append((source, effect))

''')]),
    ("same", F, [(LOOP, '''        dependencies_openclsim = []
        last_seen = {}
        for cause, effect in self.__cause_effect_list:
            if __is_relevant_timeout(cause):
                last_seen[effect] = cause
            elif cause in last_seen:
                last_seen[effect] = last_seen[cause]
            else:
                last_seen[effect] = None
            if last_seen[effect] is None:
                continue
            if __is_relevant_timeout(effect):
                dependencies_openclsim.append((last_seen[effect], effect))

''')]),
    ("same", F, [(LAST, '''        def find(e_id):
            return self._find_cp_act(e_id, recorded_activities_df)

        self.dependency_list = [
            (find(cause), find(effect)) for cause, effect in dependencies_openclsim
        ]
''')]),
    ("same", F, [(LAST, '''        self.dependency_list = []
        for cause, effect in dependencies_openclsim:
            self.dependency_list.append(
                (
                    self._find_cp_act(cause, recorded_activities_df),
                    self._find_cp_act(effect, recorded_activities_df),
                )
            )
''')]),
    ("same", F, [('''        recorded_activities_df = self.recorded_activities_df.copy()
        recorded_activities_df.start_time = round(
            recorded_activities_df.start_time.astype("int64") / 10**9, 4
        )
''', '''        recorded_activities_df = self.recorded_activities_df.copy()
''')]),
    ("same", F, [(END, '''        recorded_activities_df["end_time"] = (
            recorded_activities_df["end_time"].astype("int64") / 10**9
        ).round(4)
''')]),
    ("same", F, [('''        recorded_activities_df.start_time = round(
            recorded_activities_df.start_time.astype("int64") / 10**9, 4
        )
''' + END, '''        for column in ["start_time", "end_time"]:
            recorded_activities_df[column] = round(
                recorded_activities_df[column].astype("int64") / 10**9, 4
            )
''')]),
    ("same", F, [("t_before = copy.deepcopy(self.now)", "t_before = self.now")]),
]
CASES = [c for i, c in enumerate(CASES) if i not in [41, 44, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55]]
