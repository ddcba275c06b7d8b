F = "critical_path/base_cp.py"
TAIL = '''        df_no_activity = recorded_activities_df.loc[
            recorded_activities_df.SimulationObject != "Activity", :
        ]
        df_to_add = recorded_activities_df.loc[
            (
                (recorded_activities_df.SimulationObject == "Activity")
                & recorded_activities_df.is_critical
                & (
                    ~recorded_activities_df.cp_activity_id.isin(
                        df_no_activity.cp_activity_id
                    )
                )
            ),
            :,
        ]
        critical_path_df = pd.concat([df_no_activity, df_to_add])

        return critical_path_df
'''
SET = '''        recorded_activity_df["is_critical"] = recorded_activity_df[
            "cp_activity_id"
        ].isin(critical_activities)
'''
CASES = [
    ("bug", F, [("recorded_activity_df = self.get_recorded_activity_df().copy()", "recorded_activity_df = self.get_recorded_activity_df()")]),
    ("bug", F, [("                & recorded_activities_df.is_critical\n", "")]),
    ("bug", F, [("                    ~recorded", "                    recorded")]),
    ("bug", F, [("                        df_no_activity.cp_activity_id\n", "                        recorded_activities_df.cp_activity_id\n")]),
    ("bug", F, [("recorded_activities_df.cp_activity_id.isin(\n                        df_no_activity.cp_activity_id", "recorded_activities_df.ActivityID.isin(\n                        df_no_activity.ActivityID")]),
    ("bug", F, [("pd.concat([df_no_activity, df_to_add])", "pd.concat([df_no_activity, df_to_add]).drop_duplicates(subset=\"cp_activity_id\")")]),
    ("bug", F, [("pd.concat([df_no_activity, df_to_add])", "pd.concat([df_no_activity[df_no_activity.is_critical], df_to_add])")]),
    ("bug", F, [(SET, SET.replace('"cp_activity_id"', '"ActivityID"'))]),
    ("bug", F, [("            self.recorded_activities_df, self.dependency_list\n        )", "            self.recorded_activities_df, list(reversed(self.dependency_list))[1:]\n        )")]),
    ("bug", F, [("        self.get_dependency_list()\n        self.__make_simulation_graph()", "        self.__make_simulation_graph()\n        self.get_dependency_list()")]),
    ("bug", F, [("            self.recorded_activities_df, self.dependency_list\n        )", "            self.recorded_activities_df[self.recorded_activities_df.SimulationObject != \"Activity\"], self.dependency_list\n        )")]),
    ("bug", F, [('recorded_activities_df.SimulationObject != "Activity", :', '(recorded_activities_df.SimulationObject != "Activity") | recorded_activities_df.is_critical, :')]),
    ("bug", F, [('recorded_activities_df.SimulationObject != "Activity", :', '(recorded_activities_df.SimulationObject != "Activity") & (recorded_activities_df.is_critical), :'),
                ("pd.concat([df_no_activity, df_to_add])", 'pd.concat([recorded_activities_df[recorded_activities_df.SimulationObject != "Activity"], df_to_add, df_no_activity])')]),
    ("bug", F, [("critical_path_df = pd.concat([df_no_activity, df_to_add])", "critical_path_df = df_no_activity")]),
    ("bug", F, [(SET, SET + '        recorded_activity_df["end_time"] = recorded_activity_df.end_time.dt.round("s")\n')]),
    ("same", F, [(TAIL, '''        of_activity = recorded_activities_df["SimulationObject"] == "Activity"
        by_objects = recorded_activities_df[~of_activity]
        also = recorded_activities_df["cp_activity_id"].isin(set(by_objects["cp_activity_id"]))
        extra = recorded_activities_df[of_activity & recorded_activities_df["is_critical"] & ~also]
        return pd.concat([by_objects, extra])
''')]),
    ("same", F, [(TAIL, '''        keep = (recorded_activities_df.SimulationObject != "Activity")
        ids = recorded_activities_df.loc[keep, "cp_activity_id"].unique()
        drop = ~keep & (~recorded_activities_df.is_critical | recorded_activities_df.cp_activity_id.isin(ids))
        return recorded_activities_df.loc[~drop, :]
''')]),
    ("same", F, [('            self.recorded_activities_df, self.dependency_list\n        )', '            recorded_activities_df=self.get_recorded_activity_df(), dependency_list=self.get_dependency_list()\n        )')]),
    ("same", F, [(SET, '''        is_critical = recorded_activity_df.cp_activity_id.isin(set(critical_activities))
        recorded_activity_df["is_critical"] = is_critical
''')]),
    ("same", F, [("        if self.critical_path_df is None:\n            self._set_critical_path_df()\n\n        return self.critical_path_df", "        if self.critical_path_df is not None:\n            return self.critical_path_df\n        self._set_critical_path_df()\n        return self.critical_path_df")]),
    ("same", F, [("pd.concat([df_no_activity, df_to_add])", "pd.concat([df_no_activity, df_to_add], axis=0)")]),
    ("same", F, [('recorded_activity_df = self.get_recorded_activity_df().copy()\n' + SET, '''recorded_activity_df = self.get_recorded_activity_df()
        recorded_activity_df = recorded_activity_df.assign(
            is_critical=recorded_activity_df["cp_activity_id"].isin(critical_activities)
        )
''')]),
]
CASES += [
    ("bug", F, [(SET, SET.rstrip() + ' & (recorded_activity_df["duration"] > pd.Timedelta(seconds=1))\n')]),
    ("bug", F, [(SET, SET.rstrip() + ' & (recorded_activity_df.state == "ACTIVE")\n')]),
    ("bug", F, [('recorded_activities_df.SimulationObject != "Activity", :', '(recorded_activities_df.SimulationObject != "Activity") & (recorded_activities_df.state != "WAITING"), :')]),
]

F9 = "critical_path/base_cp.py"
NOA = '''        df_no_activity = recorded_activities_df.loc[
            recorded_activities_df.SimulationObject != "Activity", :
        ]
'''
ADD = '''        df_to_add = recorded_activities_df.loc[
            (
                (recorded_activities_df.SimulationObject == "Activity")
                & recorded_activities_df.is_critical
                & (
                    ~recorded_activities_df.cp_activity_id.isin(
                        df_no_activity.cp_activity_id
                    )
                )
            ),
            :,
        ]
'''
CC = '''        critical_path_df = pd.concat([df_no_activity, df_to_add])

        return critical_path_df
'''
CRIT = '''        critical_activities = self.simulation_graph.get_list_critical_activities()
        recorded_activity_df = self.get_recorded_activity_df().copy()
        recorded_activity_df["is_critical"] = recorded_activity_df[
            "cp_activity_id"
        ].isin(critical_activities)
'''
REM = '''        critical_path_df = self._remove_duplicate_activities(recorded_activity_df)

        return critical_path_df
'''
SETC = '''        self.get_recorded_activity_df()
        self.get_dependency_list()
        self.__make_simulation_graph()
        self.critical_path_df = self.__compute_critical_path()
'''
GET = '''        if self.critical_path_df is None:
            self._set_critical_path_df()

        return self.critical_path_df
'''
MK = '''            self.recorded_activities_df, self.dependency_list
'''
CASES += [
    ("bug", F9, [(CC, CC.replace("[df_no_activity, df_to_add]", "[df_to_add, df_no_activity]").replace("return critical_path_df", "return critical_path_df.dropna()"))]),
    ("bug", F9, [(CC, CC.replace("        return critical_path_df", "        return critical_path_df[critical_path_df.duration > pd.Timedelta(0)]"))]),
    ("bug", F9, [(CC, CC.replace("        return critical_path_df", "        critical_path_df = critical_path_df.drop_duplicates()\n        return critical_path_df"))]),
    ("bug", F9, [(CC, CC.replace("        return critical_path_df", "        return critical_path_df.drop_duplicates(subset=[\"cp_activity_id\", \"SimulationObject\"])"))]),
    ("bug", F9, [(CC, CC.replace("[df_no_activity, df_to_add]", "[df_no_activity, df_to_add.head(1)]"))]),
    ("bug", F9, [(CC, CC.replace("[df_no_activity, df_to_add]", "[df_no_activity, df_to_add, df_to_add]"))]),
    ("bug", F9, [(CC, CC.replace("[df_no_activity, df_to_add]", "[df_no_activity, df_to_add], axis=1"))]),
    ("bug", F9, [(CC, CC.replace("[df_no_activity, df_to_add]", "[df_no_activity, df_to_add], join='inner'").replace("return critical_path_df", "return critical_path_df[1:]"))]),
    ("bug", F9, [(CC, CC.replace("return critical_path_df", "return critical_path_df.groupby('cp_activity_id').first().reset_index()"))]),
    ("bug", F9, [(ADD, ADD.replace("& recorded_activities_df.is_critical\n", "& ~recorded_activities_df.is_critical\n"))]),
    ("bug", F9, [(ADD, ADD.replace("& recorded_activities_df.is_critical\n", "| recorded_activities_df.is_critical\n"))]),
    ("bug", F9, [(ADD, ADD.replace('''                & (
                    ~recorded_activities_df.cp_activity_id.isin(
                        df_no_activity.cp_activity_id
                    )
                )
''', ''))]),
    ("bug", F9, [(ADD, ADD.replace('''                        df_no_activity.cp_activity_id
''', '''                        df_no_activity[df_no_activity.is_critical == False].cp_activity_id
'''))]),
    ("bug", F9, [(ADD, ADD.replace('''cp_activity_id.isin(
                        df_no_activity.cp_activity_id
''', '''start_time.isin(
                        df_no_activity.start_time
'''))]),
    ("bug", F9, [(ADD, ADD.replace('(recorded_activities_df.SimulationObject == "Activity")', '(recorded_activities_df.state == "ACTIVE")'))]),
    ("bug", F9, [(ADD, ADD.replace('(recorded_activities_df.SimulationObject == "Activity")', '(recorded_activities_df.SimulationObject == "Activity")\n                & (recorded_activities_df.state == "ACTIVE")'))]),
    ("bug", F9, [(ADD, ADD.replace('(recorded_activities_df.SimulationObject == "Activity")', '(recorded_activities_df.SimulationObject == "Activity")\n                & (recorded_activities_df.duration.dt.total_seconds() > 0)'))]),
    ("bug", F9, [(NOA, NOA.replace('!= "Activity", :', '== "Activity", :'))]),
    ("bug", F9, [(NOA, NOA.replace('''        ]
''', '''        ].drop_duplicates(subset="cp_activity_id")
'''))]),
    ("bug", F9, [(NOA, NOA.replace('''        ]
''', '''        ].sort_values("duration").iloc[1:]
'''))]),
    ("bug", F9, [(CRIT, CRIT.replace("].isin(critical_activities)", "].isin(critical_activities[1:])"))]),
    ("bug", F9, [(CRIT, CRIT.replace("].isin(critical_activities)", "].isin(critical_activities) & (recorded_activity_df.state != 'WAITING')"))]),
    ("bug", F9, [(CRIT, CRIT.replace('"is_critical"] = recorded', '"is_critical"] = ~recorded'))]),
    ("bug", F9, [(CRIT, CRIT.replace("].isin(critical_activities)", "].isin(critical_activities) | recorded_activity_df.ActivityID.isin(critical_activities)").replace("critical_activities)\n", "critical_activities) | recorded_activity_df.duration.isna()\n"))]),
    ("bug", F9, [(CRIT, CRIT.replace("].isin(critical_activities)", "].isin([a for a in critical_activities if len(a) > 0][:-1])"))]),
    ("bug", F9, [(CRIT, CRIT.replace(".copy()", ".copy().dropna(subset=['duration'])"))]),
    ("bug", F9, [(CRIT, CRIT.replace(".copy()", ".copy().drop_duplicates('cp_activity_id')"))]),
    ("bug", F9, [(CRIT, CRIT.replace(".copy()", ".copy(deep=False)") + '        recorded_activity_df["end_time"] = recorded_activity_df["end_time"].dt.round("s")\n')]),
    ("bug", F9, [(CRIT, CRIT + '        recorded_activity_df["Activity"] = recorded_activity_df["Activity"].str.lower()\n')]),
    ("bug", F9, [(CRIT, CRIT + '        recorded_activity_df.loc[recorded_activity_df.state == "WAITING", "is_critical"] = False\n')]),
    ("bug", F9, [(SETC, SETC.replace("        self.get_dependency_list()\n", "        self.dependency_list = self.dependency_list or []\n"))]),
    ("bug", F9, [(SETC, SETC.replace("        self.__make_simulation_graph()\n", "        if self.simulation_graph is None:\n            self.__make_simulation_graph()\n        self.recorded_activities_df = None\n"))]),
    ("bug", F9, [(SETC, SETC + "        self.recorded_activities_df = self.critical_path_df\n")]),
    ("bug", F9, [(GET, GET.replace("return self.critical_path_df", "return self.critical_path_df[self.critical_path_df.is_critical]"))]),
    ("bug", F9, [(GET, GET.replace("return self.critical_path_df", "return self.critical_path_df.drop_duplicates('cp_activity_id')"))]),
    ("bug", F9, [(MK, MK.replace("self.dependency_list", "self.dependency_list[:1000]"))]),
    ("bug", F9, [(MK, MK.replace("self.dependency_list", "[(b, a) for a, b in self.dependency_list]"))]),
    ("bug", F9, [(MK, MK.replace("self.recorded_activities_df,", "self._remove_waiting(),")), (CRIT, CRIT), ("    def get_critical_path_df(self):\n", '''    def _remove_waiting(self):
        """Only the executions that are active."""
        df = self.recorded_activities_df
        return df[df.state == "ACTIVE"]

    def get_critical_path_df(self):
''')]),
    ("same", F9, [(CC, "        return pd.concat([df_no_activity, df_to_add])\n")]),
    ("same", F9, [(CC, "        return pd.concat([df_no_activity, df_to_add], ignore_index=False)\n")]),
    ("same", F9, [(CC, "        frames = [df_no_activity]\n        frames.append(df_to_add)\n        return pd.concat(frames)\n")]),
    ("same", F9, [(CC, "        frames = [df_no_activity, df_to_add]\n        critical_path_df = pd.concat(objs=frames)\n        return critical_path_df\n")]),
    ("same", F9, [(NOA, '''        is_activity = recorded_activities_df["SimulationObject"].eq("Activity")
        df_no_activity = recorded_activities_df[~is_activity]
'''), (ADD, '''        seen = df_no_activity["cp_activity_id"].unique()
        only_activity = ~recorded_activities_df["cp_activity_id"].isin(seen)
        df_to_add = recorded_activities_df[
            is_activity & recorded_activities_df["is_critical"] & only_activity
        ]
''')]),
    ("same", F9, [(NOA, '''        df_activity = recorded_activities_df.loc[
            recorded_activities_df.SimulationObject == "Activity"
        ]
        df_no_activity = recorded_activities_df.loc[
            recorded_activities_df.SimulationObject != "Activity"
        ]
'''), (ADD, '''        df_critical = df_activity.loc[df_activity.is_critical]
        df_to_add = df_critical.loc[
            ~df_critical.cp_activity_id.isin(df_no_activity.cp_activity_id)
        ]
''')]),
    ("same", F9, [(ADD, '''        is_critical_activity = (
            recorded_activities_df.SimulationObject == "Activity"
        ) & recorded_activities_df.is_critical
        is_recorded_by_object = recorded_activities_df.cp_activity_id.isin(
            df_no_activity.cp_activity_id
        )
        df_to_add = recorded_activities_df.loc[
            is_critical_activity & ~is_recorded_by_object
        ]
''')]),
    ("same", F9, [(ADD, ADD.replace("                        df_no_activity.cp_activity_id\n", "                        set(df_no_activity.cp_activity_id)\n"))]),
    ("same", F9, [(ADD, ADD.replace("                        df_no_activity.cp_activity_id\n", "                        list(df_no_activity.cp_activity_id.unique())\n"))]),
    ("same", F9, [(ADD, ADD.replace("& recorded_activities_df.is_critical\n", "& (recorded_activities_df.is_critical == True)\n"))]),
    ("same", F9, [(ADD, ADD.replace('(recorded_activities_df.SimulationObject == "Activity")', '~(recorded_activities_df.SimulationObject != "Activity")'))]),
    ("same", F9, [(ADD, '''        ids = set(df_no_activity.cp_activity_id)
        df_to_add = recorded_activities_df.query(
            "SimulationObject == 'Activity' and is_critical and cp_activity_id not in @ids"
        )
''')]),
    ("same", F9, [(ADD, '''        ids = df_no_activity.cp_activity_id.tolist()
        df_to_add = recorded_activities_df[
            recorded_activities_df.apply(
                lambda row: row["SimulationObject"] == "Activity"
                and row["is_critical"]
                and row["cp_activity_id"] not in ids,
                axis=1,
            )
        ]
''')]),
    ("same", F9, [(CRIT, CRIT.replace('''        recorded_activity_df["is_critical"] = recorded_activity_df[
            "cp_activity_id"
        ].isin(critical_activities)
''', '''        recorded_activity_df = recorded_activity_df.assign(
            is_critical=recorded_activity_df["cp_activity_id"].isin(critical_activities)
        )
'''))]),
    ("same", F9, [(CRIT, '''        graph = self.simulation_graph
        critical = graph.get_list_critical_activities()
        recorded = self.get_recorded_activity_df()
        recorded_activity_df = recorded.assign(
            is_critical=lambda df: df["cp_activity_id"].isin(critical)
        )
''')]),
    ("same", F9, [(CRIT, CRIT.replace('''        recorded_activity_df["is_critical"] = recorded_activity_df[
            "cp_activity_id"
        ].isin(critical_activities)
''', '''        recorded_activity_df["is_critical"] = recorded_activity_df[
            "cp_activity_id"
        ].apply(lambda id_: id_ in critical_activities)
'''))]),
    ("same", F9, [(CRIT, CRIT.replace('''        recorded_activity_df["is_critical"] = recorded_activity_df[
            "cp_activity_id"
        ].isin(critical_activities)
''', '''        recorded_activity_df["is_critical"] = [
            id_ in critical_activities
            for id_ in recorded_activity_df["cp_activity_id"]
        ]
'''))]),
    ("same", F9, [(CRIT, CRIT.replace('''        recorded_activity_df["is_critical"] = recorded_activity_df[
            "cp_activity_id"
        ].isin(critical_activities)
''', '''        recorded_activity_df.loc[:, "is_critical"] = recorded_activity_df.loc[
            :, "cp_activity_id"
        ].isin(critical_activities)
'''))]),
    ("same", F9, [(CRIT, CRIT.replace('''        recorded_activity_df["is_critical"] = recorded_activity_df[
            "cp_activity_id"
        ].isin(critical_activities)
''', '''        self._mark_critical(recorded_activity_df, critical_activities)
''')), ("    @staticmethod\n    def _remove_duplicate_activities(", '''    @staticmethod
    def _mark_critical(df, ids):
        """Add the column is_critical."""
        df["is_critical"] = df["cp_activity_id"].isin(ids)

    @staticmethod
    def _remove_duplicate_activities(''')]),
    ("same", F9, [(REM, "        return self._remove_duplicate_activities(recorded_activity_df)\n")]),
    ("same", F9, [(REM, "        return BaseCP._remove_duplicate_activities(\n            recorded_activities_df=recorded_activity_df\n        )\n")]),
    ("same", F9, [(SETC, '''        self.get_recorded_activity_df()
        self.get_dependency_list()
        self.__make_simulation_graph()
        critical = self.__compute_critical_path()
        self.critical_path_df = critical
''')]),
    ("same", F9, [(SETC, '''        self.get_recorded_activity_df()
        if self.dependency_list is None:
            self.get_dependency_list()
        self.__make_simulation_graph()
        self.critical_path_df = self.__compute_critical_path()
''')]) if False else
    ("same", F9, [(GET, '''        critical_path_df = self.critical_path_df
        if critical_path_df is None:
            self._set_critical_path_df()
            critical_path_df = self.critical_path_df
        return critical_path_df
''')]),
    ("same", F9, [(GET, '''        if self.critical_path_df is None:
            self.get_recorded_activity_df()
            self.get_dependency_list()
            self.__make_simulation_graph()
            self.critical_path_df = self.__compute_critical_path()
        return self.critical_path_df
''')]),
    ("same", F9, [('''        self.simulation_graph = SimulationGraph(
            self.recorded_activities_df, self.dependency_list
        )
''', '''        recorded, dependencies = self.recorded_activities_df, self.dependency_list
        self.simulation_graph = SimulationGraph(
            recorded_activities_df=recorded, dependency_list=dependencies
        )
''')]),
]
