F = "critical_path/dependencies_from_recorded_activities.py"
SEL = '''            dependencies = recorded_activities_df.loc[
                (recorded_activities_df.end_time == cp_act.start_time)
                & (recorded_activities_df.SimulationObject == cp_act.SimulationObject),
                :,
            ]
'''
WAIT = '''                if "WAITING" in dependencies.loc[:, "state"].tolist():
                    # if this cp_act is waiting for something,
                    # drop shared SimulationObject condition
                    dependencies = recorded_activities_df.loc[
                        recorded_activities_df.end_time == cp_act.start_time, :
                    ]
'''
OWN = '''                depending_on = set(dependencies.cp_activity_id) - {
                    cp_act.cp_activity_id
                }
'''
ADD = '''                for act_dep in depending_on:
                    dependency_list.append((act_dep, cp_act.cp_activity_id))
'''
BODY = SEL + "\n            if len(dependencies) > 0:\n" + WAIT + OWN + ADD
FILTER = '''        recorded_activities_df = recorded_activities_df.loc[
            recorded_activities_df.SimulationObject != "Activity", :
        ]
'''
CASES = [
    ("bug", F, [(FILTER, "")]),
    ("bug", F, [(SEL, SEL.replace("                & (recorded_activities_df.SimulationObject == cp_act.SimulationObject),\n", ",\n").replace("start_time)\n,", "start_time),"))]),
    ("bug", F, [(SEL, SEL.replace("recorded_activities_df.end_time == cp_act.start_time", "recorded_activities_df.end_time <= cp_act.start_time"))]),
    ("bug", F, [(SEL, SEL.replace("recorded_activities_df.end_time == cp_act.start_time", "recorded_activities_df.start_time == cp_act.end_time"))]),
    ("bug", F, [("(act_dep, cp_act.cp_activity_id)", "(cp_act.cp_activity_id, act_dep)")]),
    ("bug", F, [(OWN, "                depending_on = set(dependencies.cp_activity_id)\n")]),
    ("bug", F, [('"WAITING" in', '"ACTIVE" in')]),
    ("bug", F, [('if "WAITING" in dependencies.loc[:, "state"].tolist():', 'if cp_act["state"] == "WAITING":')]),
    ("bug", F, [('dependencies.loc[:, "state"]', 'recorded_activities_df.loc[:, "state"]')]),
    ("bug", F, [(WAIT, WAIT.replace("recorded_activities_df.end_time == cp_act.start_time, :", "(recorded_activities_df.end_time == cp_act.start_time) & (recorded_activities_df.state == 'WAITING'), :"))]),
    ("bug", F, [(WAIT, WAIT.replace("recorded_activities_df.end_time == cp_act.start_time, :", "recorded_activities_df.end_time <= cp_act.start_time, :"))]),
    ("bug", F, [("set(dependencies.cp_activity_id)", "set(dependencies.ActivityID)")]),
    ("bug", F, [("recorded_activities_df.itertuples()", "recorded_activities_df.drop_duplicates(subset='cp_activity_id').itertuples()")]),
    ("bug", F, [("recorded_activities_df.itertuples()", "recorded_activities_df[recorded_activities_df.state == 'ACTIVE'].itertuples()")]),
    ("bug", F, [("if len(dependencies) > 0:", "if len(dependencies) > 1:")]),
    ("bug", F, [(WAIT, "")]),
    ("bug", F, [("& (recorded_activities_df.SimulationObject == cp_act.SimulationObject)", "& (recorded_activities_df.Activity == cp_act.Activity)")]),
    ("bug", F, [(WAIT, WAIT.replace("recorded_activities_df", "everything")), ("        dependency_list = []\n", "        dependency_list = []\n        everything = self.get_recorded_activity_df()\n")]),
    ("same", F, [(BODY, '''            ended = recorded_activities_df.end_time == cp_act.start_time
            shared = ended & (
                recorded_activities_df.SimulationObject == cp_act.SimulationObject
            )
            if not shared.any():
                continue
            if (recorded_activities_df[shared]["state"] == "WAITING").any():
                causes = recorded_activities_df[ended]
            else:
                causes = recorded_activities_df[shared]
            for cause in causes.cp_activity_id.unique():
                if cause != cp_act.cp_activity_id:
                    dependency_list.append((cause, cp_act.cp_activity_id))
''')]),
    ("same", F, [(BODY, '''            ended = recorded_activities_df[recorded_activities_df.end_time == cp_act.start_time]
            dependencies = ended[ended.SimulationObject == cp_act.SimulationObject]
            if "WAITING" in set(dependencies["state"]):
                dependencies = ended
            dependency_list += [
                (dep, cp_act.cp_activity_id)
                for dep in set(dependencies["cp_activity_id"])
                if dep != cp_act.cp_activity_id
            ]
''')]),
    ("same", F, [(OWN + ADD, '''                for dep in dependencies.itertuples():
                    if dep.cp_activity_id == cp_act.cp_activity_id:
                        continue
                    dependency_list.append((dep.cp_activity_id, cp_act.cp_activity_id))
''')]),
    ("same", F, [("            if len(dependencies) > 0:", "            if not dependencies.empty:")]),
    ("same", F, [("        for cp_act in recorded_activities_df.itertuples():", "        for _, cp_act in recorded_activities_df.iterrows():")]),
    ("same", F, [("dependency_list = []", "dependency_list = set()"), ("dependency_list.append(", "dependency_list.add("), ("list(set(dependency_list))", "list(dependency_list)")]),
    ("same", F, [(OWN, '''                depending_on = set(
                    dependencies.loc[
                        dependencies.cp_activity_id != cp_act.cp_activity_id, "cp_activity_id"
                    ]
                )
''')]),
]

COPYLINE = "        recorded_activities_df = self.get_recorded_activity_df().copy()\n"
LOOPHEAD = "        for cp_act in recorded_activities_df.itertuples():\n"
FINAL = "        self.dependency_list = list(set(dependency_list))"
LEN = "            if len(dependencies) > 0:\n"
CASES += [
    ("bug", F, [(FINAL, "        self.dependency_list = list(set(dependency_list))[1:]")]),
    ("bug", F, [(FINAL, "        self.dependency_list = [d for d in set(dependency_list) if d[0] < d[1]]")]),
    ("bug", F, [(FINAL, "        self.dependency_list = list({b: (a, b) for a, b in dependency_list}.values())")]),
    ("bug", F, [(FINAL, "        self.dependency_list = [\n            d for d in set(dependency_list) if d[::-1] not in dependency_list\n        ]")]),
    ("bug", F, [(FINAL, "        self.dependency_list = sorted(set(dependency_list))[:len(recorded_activities_df)]")]),
    ("bug", F, [(LOOPHEAD, "        for cp_act in recorded_activities_df.iloc[1:].itertuples():\n")]),
    ("bug", F, [(LOOPHEAD, LOOPHEAD + "            if cp_act.duration.total_seconds() == 0:\n                continue\n")]),
    ("bug", F, [(LOOPHEAD, LOOPHEAD + "            if cp_act.state == \"WAITING\":\n                continue\n")]),
    ("bug", F, [(LOOPHEAD, LOOPHEAD + "            if cp_act.cp_activity_id in [b for _, b in dependency_list]:\n                continue\n")]),
    ("bug", F, [(LOOPHEAD, "        done = set()\n" + LOOPHEAD + "            if cp_act.cp_activity_id in done:\n                continue\n            done.add(cp_act.cp_activity_id)\n")]),
    ("bug", F, [(LEN, "            dependencies = dependencies.drop_duplicates(subset=\"SimulationObject\")\n" + LEN)]),
    ("bug", F, [(LEN, "            dependencies = dependencies.tail(1)\n" + LEN)]),
    ("bug", F, [(LEN, "            dependencies = dependencies[dependencies.duration > cp_act.duration]\n" + LEN)]),
    ("bug", F, [(LEN, "            dependencies = dependencies[dependencies.ActivityID != cp_act.ActivityID]\n" + LEN)]),
    ("bug", F, [(LEN, "            dependencies = dependencies[dependencies.start_time < cp_act.start_time]\n" + LEN)]),
    ("bug", F, [(OWN, OWN.replace("cp_act.cp_activity_id\n", "cp_act.ActivityID\n"))]),
    ("bug", F, [(OWN, OWN + "                depending_on = sorted(depending_on)[:1]\n")]),
    ("bug", F, [(OWN, '''                depending_on = set(
                    dependencies[dependencies.state != "WAITING"].cp_activity_id
                ) - {cp_act.cp_activity_id}
''')]),
    ("bug", F, [(OWN, '''                depending_on = set(
                    dependencies[dependencies.Activity != cp_act.Activity].cp_activity_id
                )
''')]),
    ("bug", F, [(WAIT, WAIT.replace('in dependencies.loc[:, "state"].tolist()', 'in dependencies.loc[:, "state"].tolist()[:1]'))]),
    ("bug", F, [(WAIT, WAIT.replace('"WAITING" in dependencies.loc[:, "state"].tolist()', '"WAITING" in dependencies.loc[:, "state"]'))]),
    ("bug", F, [(WAIT, WAIT.replace('"WAITING" in dependencies.loc[:, "state"].tolist()', '"WAITING" in dependencies.loc[:, "Activity"].tolist()'))]),
    ("bug", F, [(WAIT, WAIT.replace('"WAITING" in dependencies.loc[:, "state"].tolist()', '(dependencies.state == "WAITING").all()'))]),
    ("bug", F, [(WAIT, WAIT.replace('recorded_activities_df.end_time == cp_act.start_time, :', 'recorded_activities_df.end_time == cp_act.end_time, :'))]),
    ("bug", F, [(WAIT, WAIT.replace('recorded_activities_df.end_time == cp_act.start_time, :', '(recorded_activities_df.end_time == cp_act.start_time) & (recorded_activities_df.SimulationObject != cp_act.SimulationObject), :'))]),
    ("bug", F, [(WAIT, WAIT.replace('recorded_activities_df.end_time == cp_act.start_time, :', '(recorded_activities_df.end_time == cp_act.start_time) & (recorded_activities_df.state == "ACTIVE"), :'))]),
    ("bug", F, [(WAIT, WAIT.replace('recorded_activities_df.end_time == cp_act.start_time, :', '(recorded_activities_df.end_time == cp_act.start_time) & (recorded_activities_df.duration > dependencies.duration.min()), :'))]),
    ("bug", F, [(WAIT, WAIT.replace('recorded_activities_df.end_time == cp_act.start_time, :', 'recorded_activities_df.end_time.dt.round("s") == cp_act.start_time.round("s"), :'))]),
    ("bug", F, [(SEL, SEL.replace("(recorded_activities_df.end_time == cp_act.start_time)", '(recorded_activities_df.end_time.dt.floor("s") == cp_act.start_time.floor("s"))'))]),
    ("bug", F, [(SEL, SEL.replace("== cp_act.SimulationObject", "!= cp_act.SimulationObject"))]),
    ("bug", F, [(SEL, SEL.replace("(recorded_activities_df.end_time == cp_act.start_time)", "(recorded_activities_df.end_time == cp_act.start_time)\n                & (recorded_activities_df.index < cp_act.Index)"))]),
    ("bug", F, [(FILTER, FILTER.replace('!= "Activity", :', '!= "Activity", :') + '        recorded_activities_df = recorded_activities_df.dropna()\n')]),
    ("bug", F, [(FILTER, FILTER.replace('recorded_activities_df.SimulationObject != "Activity"', '(recorded_activities_df.SimulationObject != "Activity")\n            & (recorded_activities_df.duration > recorded_activities_df.duration.min())'))]),
    ("bug", F, [(FILTER, FILTER.replace('SimulationObject != "Activity"', 'Activity != "Activity"'))]),
    ("bug", F, [(COPYLINE, COPYLINE.replace(".copy()", "") ), (FILTER, '        recorded_activities_df.drop(\n            recorded_activities_df[\n                recorded_activities_df.SimulationObject == "Activity"\n            ].index,\n            inplace=True,\n        )\n')]),
    ("same", F, [(COPYLINE, COPYLINE.replace(".copy()", ""))]),
    ("same", F, [(COPYLINE + FILTER, '''        recorded = self.get_recorded_activity_df()
        recorded_activities_df = recorded[recorded["SimulationObject"] != "Activity"].copy()
''')]),
    ("same", F, [(LOOPHEAD, "        for _, cp_act in recorded_activities_df.iterrows():\n")]),
    ("same", F, [(LOOPHEAD, "        for cp_act in recorded_activities_df.itertuples(index=False):\n")]),
    ("same", F, [(ADD, '''                dependency_list.extend(
                    (act_dep, cp_act.cp_activity_id) for act_dep in depending_on
                )
''')]),
    ("same", F, [(ADD, '''                dependency_list += [
                    (act_dep, cp_act.cp_activity_id) for act_dep in depending_on
                ]
''')]),
    ("same", F, [(ADD, ADD.replace("dependency_list.append(", "dependency_list.add(")), ("        dependency_list = []\n", "        dependency_list = set()\n"), (FINAL, "        self.dependency_list = list(dependency_list)")]),
    ("same", F, [(FINAL, "        self.dependency_list = sorted(set(dependency_list))")]),
    ("same", F, [(FINAL, "        self.dependency_list = [*set(dependency_list)]")]),
    ("same", F, [(OWN, '''                depending_on = set(dependencies.cp_activity_id)
                depending_on.discard(cp_act.cp_activity_id)
''')]),
    ("same", F, [(OWN, '''                depending_on = {
                    id_
                    for id_ in dependencies.cp_activity_id
                    if id_ != cp_act.cp_activity_id
                }
''')]),
    ("same", F, [(OWN, '''                own_id = cp_act.cp_activity_id
                depending_on = set(
                    dependencies.loc[dependencies.cp_activity_id != own_id, "cp_activity_id"]
                )
''')]),
    ("same", F, [(OWN, '''                depending_on = set(dependencies["cp_activity_id"].unique()).difference(
                    [cp_act.cp_activity_id]
                )
''')]),
    ("same", F, [(LEN, "            if not dependencies.empty:\n")]),
    ("same", F, [(LEN, "            if dependencies.shape[0] > 0:\n")]),
    ("same", F, [(LEN, "            if len(dependencies):\n")]),
    ("same", F, [(LEN, "            if len(dependencies.index) != 0:\n")]),
    ("same", F, [(WAIT, WAIT.replace('"WAITING" in dependencies.loc[:, "state"].tolist()', '"WAITING" in dependencies["state"].values'))]),
    ("same", F, [(WAIT, WAIT.replace('"WAITING" in dependencies.loc[:, "state"].tolist()', '"WAITING" in set(dependencies.state)'))]),
    ("same", F, [(WAIT, WAIT.replace('"WAITING" in dependencies.loc[:, "state"].tolist()', 'dependencies.state.eq("WAITING").any()'))]),
    ("same", F, [(WAIT, WAIT.replace('"WAITING" in dependencies.loc[:, "state"].tolist()', 'any(state == "WAITING" for state in dependencies.state)'))]),
    ("same", F, [(WAIT, WAIT.replace('"WAITING" in dependencies.loc[:, "state"].tolist()', '(dependencies.state == "WAITING").sum() > 0'))]),
    ("same", F, [(SEL, '''            ends_at_start = recorded_activities_df["end_time"] == cp_act.start_time
            same_object = (
                recorded_activities_df["SimulationObject"] == cp_act.SimulationObject
            )
            dependencies = recorded_activities_df.loc[ends_at_start & same_object, :]
'''), (WAIT, WAIT.replace('''recorded_activities_df.loc[
                        recorded_activities_df.end_time == cp_act.start_time, :
                    ]''', "recorded_activities_df.loc[ends_at_start, :]"))]),
    ("same", F, [(SEL, '''            ended = recorded_activities_df.loc[
                recorded_activities_df.end_time == cp_act.start_time, :
            ]
            dependencies = ended.loc[
                ended.SimulationObject == cp_act.SimulationObject, :
            ]
'''), (WAIT, WAIT.replace('''recorded_activities_df.loc[
                        recorded_activities_df.end_time == cp_act.start_time, :
                    ]''', "ended"))]),
    ("same", F, [(LOOPHEAD + SEL, '''        groups = dict(list(recorded_activities_df.groupby("SimulationObject")))
''' + LOOPHEAD + '''            of_object = groups[cp_act.SimulationObject]
            dependencies = of_object[of_object.end_time == cp_act.start_time]
''')]),
    ("same", F, [(LEN + WAIT + OWN + ADD, '''            dependency_list.extend(
                self.__dependencies_of(cp_act, dependencies, recorded_activities_df)
            )
'''), ("    def __set_dependency_list(self):", '''    @staticmethod
    def __dependencies_of(cp_act, dependencies, recorded):
        """All pairs for a single activity."""
        if len(dependencies) == 0:
            return []
        if "WAITING" in dependencies.loc[:, "state"].tolist():
            dependencies = recorded.loc[recorded.end_time == cp_act.start_time, :]
        own = cp_act.cp_activity_id
        return [(other, own) for other in set(dependencies.cp_activity_id) - {own}]

    def __set_dependency_list(self):''')]),
    ("same", F, [("        if self.dependency_list is None:\n            self.__set_dependency_list()\n\n        return self.dependency_list\n", "        if self.dependency_list is not None:\n            return self.dependency_list\n        self.__set_dependency_list()\n        return self.dependency_list\n")]),
    ("same", F, [(FINAL, "        return list(set(dependency_list))"), ("            self.__set_dependency_list()\n", "            self.dependency_list = self.__set_dependency_list()\n")]),
]
CASES = [c for i, c in enumerate(CASES) if i not in [45]]
