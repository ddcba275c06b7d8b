F = "critical_path/simulation_graph.py"
DUR = '''        recorded_activities_df["duration"] = (
            recorded_activities_df["end_time"] - recorded_activities_df["start_time"]
        )
'''
DROP = '''        recorded_activities_df = recorded_activities_df.loc[
            recorded_activities_df.duration != 0, :
        ]
'''
NEG = '''        if not all(recorded_activities_df["duration"] > 0):
            raise ValueError("Negative durations encountered in activities.")
'''
MISS = '''        missing_columns = [
            c
            for c in self.__RECORDED_ACTIVITY_COLUMNS.keys()
            if c not in recorded_activities_df.columns
        ]
        assert missing_columns == [], f"cp_log is missing columns {missing_columns}"
'''
DEPZ = '''            if round(duration, 4) != 0:
                raise ValueError(
                    f"dependency ({dependency_cause}, {dependency_effect})"
                    f" with non zero duration ({duration}) not allowed!"
                )
'''
ACY = '''        assert nx.is_directed_acyclic_graph(
            self.simulation_graph
        ), "The resulting graph appears to be cyclic!"
'''
LEN = '''        self.max_duration = nx.dag_longest_path_length(
            self.simulation_graph, weight="duration"
        )
'''
LINK = '''            (f"{self.__NODE_END_PREFIX} {end}", f"{self.__NODE_START_PREFIX} {start}")
            for end, start in dependency_list
'''
CASES = [
    ("bug", F, [(DROP, DROP.replace("!= 0", "> 0"))]),
    ("bug", F, [(NEG, NEG.replace("> 0", "> -3600"))]),
    ("bug", F, [(NEG, NEG.replace("if not all(", "if not any("))]),
    ("bug", F, [(NEG, "")]),
    ("bug", F, [(DROP + '        # make sure all durations are positive\n' + NEG, NEG + DROP)]),
    ("bug", F, [(DEPZ, DEPZ.replace("!= 0", "> 0"))]),
    ("bug", F, [(DEPZ, DEPZ.replace("round(duration, 4) != 0", "int(duration) != 0"))]),
    ("bug", F, [("int(duration.total_seconds())", "duration.seconds")]),
    ("bug", F, [("int(duration.total_seconds())", "duration.days")]),
    ("bug", F, [(DEPZ, "")]),
    ("bug", F, [(DEPZ, DEPZ.replace("raise ValueError(", "logging.warning("))]),
    ("bug", F, [(ACY, ""), (LEN, "        self.max_duration = self.recorded_activities_df.duration.sum()\n")]),
    ("bug", F, [('recorded_activities_df["duration"].dt.total_seconds(), 3', 'recorded_activities_df["duration"].dt.seconds, 3')]),
    ("bug", F, [('            recorded_activities_df["duration"] = round(\n                recorded_activities_df["duration"].dt.total_seconds(), 3\n', '            recorded_activities_df["duration"] = round(\n                recorded_activities_df["duration"].dt.total_seconds()\n')]),
    ("bug", F, [('subset=["cp_activity_id"]', 'subset=["start_time", "end_time"]')]),
    ("bug", F, [('subset=["cp_activity_id"]', 'subset=["activity", "start_time"]')]),
    ("bug", F, [(LINK, LINK.replace("for end, start", "for start, end"))]),
    ("bug", F, [(LINK, LINK.replace("in dependency_list", "in dependency_list if end < start"))]),
    ("bug", F, [(LINK, LINK.replace("in dependency_list", "in dependency_list[1:]"))]),
    ("bug", F, [('                time=params.end_time,', '                time=params.start_time,')]),
    ("bug", F, [('self.simulation_graph.nodes[dependency_effect]["time"]', 'self.simulation_graph.nodes[dependency_cause]["time"]')]),
    ("bug", F, [('                "activity": None,\n                "start_time": start_time,\n                "state": None,\n                "duration": duration,', '                "activity": None,\n                "start_time": start_time,\n                "state": None,')]),
    ("bug", F, [('            # add the edge from cause to effect\n', '            if self.simulation_graph.has_edge(dependency_cause, dependency_effect):\n                continue\n            if dependency_cause.split()[-1] == dependency_effect.split()[-1]:\n                continue\n')]),
    ("bug", F, [('        "duration": "duration",\n', '')]),
    ("bug", F, [('assert missing_columns == []', 'assert len(missing_columns) < 2')]),
    ("bug", F, [(MISS, MISS.replace("        assert missing_columns == [], f", "        if missing_columns:\n            logging.warning(f").replace('{missing_columns}"', '{missing_columns}")'))]),
    ("bug", F, [('        self.__create_activity_edges()\n        self.__link_activity_edges()\n\n        # check if the resulting graph is acyclic\n' + ACY, '        self.__create_activity_edges()\n' + ACY + '        self.__link_activity_edges()\n'), (LEN, "        self.max_duration = 0\n")]),
    ("bug", F, [('        for params in cp_activities_df.itertuples():\n', '        for params in cp_activities_df.itertuples():\n            if params.state == "WAITING":\n                continue\n')]),
    ("bug", F, [('            name_end = f"{self.__NODE_END_PREFIX} {params.cp_activity_id}"', '            name_end = f"{self.__NODE_END_PREFIX} {params.activity}"')]),
    # refactorings
    ("same", F, [(MISS, MISS.replace('        assert missing_columns == [], f"cp_log is missing columns {missing_columns}"', '        if missing_columns:\n            raise AssertionError(f"cp_log is missing columns {missing_columns}")'))]),
    ("same", F, [(NEG, NEG.replace("if not all(", "if (").replace("> 0)", "< 0).any()"))]),
    ("same", F, [(DROP, '        nonzero = recorded_activities_df["duration"] != 0\n        recorded_activities_df = recorded_activities_df[nonzero]\n')]),
    ("same", F, [(DEPZ, DEPZ.replace("if round(duration, 4) != 0:", "non_zero = round(duration, 4) != 0\n            if non_zero:"))]),
    ("same", F, [(ACY, "        if not nx.is_directed_acyclic_graph(self.simulation_graph):\n            raise AssertionError(\"The resulting graph appears to be cyclic!\")\n")]),
    ("same", F, [(ACY, "")]),
    ("same", F, [(LINK, "            (\"end \" + str(cause), \"start \" + str(effect))\n            for cause, effect in dependency_list\n")]),
    ("same", F, [('            name_start = f"{self.__NODE_START_PREFIX} {params.cp_activity_id}"\n            name_end = f"{self.__NODE_END_PREFIX} {params.cp_activity_id}"\n', '            cp_id = params.cp_activity_id\n            name_start, name_end = f"{self.__NODE_START_PREFIX} {cp_id}", f"{self.__NODE_END_PREFIX} {cp_id}"\n')]),
    ("same", F, [('''            self.simulation_graph.add_edge(
                dependency_cause, dependency_effect, **edge_kwargs
            )
''', '''            graph = self.simulation_graph
            graph.add_edge(dependency_cause, dependency_effect, **edge_kwargs)
''')]),
    ("same", F, [(MISS, '        missing_columns = set(self.__RECORDED_ACTIVITY_COLUMNS) - set(recorded_activities_df.columns)\n        assert not missing_columns, f"cp_log is missing columns {missing_columns}"\n')]),
    ("same", F, [(MISS, '        for c in self.__RECORDED_ACTIVITY_COLUMNS:\n            assert c in recorded_activities_df.columns, f"cp_log is missing column {c}"\n')]),
    ("same", F, [(LINK, LINK), ('''        dependency_list = [
''' + LINK + '''        ]
        return dependency_list''', '''        edges = []
        for end, start in dependency_list:
            edges.append((f"{self.__NODE_END_PREFIX} {end}", f"{self.__NODE_START_PREFIX} {start}"))
        return edges''')]),
    ("same", F, [(DROP + '        # make sure all durations are positive\n' + NEG, '        if any(recorded_activities_df["duration"] < 0):\n            raise ValueError("Negative durations encountered in activities.")\n' + DROP)]),
    ("same", F, [(DUR, '        times = recorded_activities_df["end_time"] - recorded_activities_df["start_time"]\n        recorded_activities_df["duration"] = times\n')]),
    ("same", F, [('        for dependency_cause, dependency_effect in self.dependency_list:\n            # extract some information on the times\n', '        for dependency in self.dependency_list:\n            dependency_cause, dependency_effect = dependency\n')]),
]

F = "critical_path/simulation_graph.py"
DUR = "                \"duration\": params.duration,\n                \"end_time\": params.end_time,\n"
ND = "        if not all(recorded_activities_df[\"duration\"] > 0):\n            raise ValueError(\"Negative durations encountered in activities.\")\n"
ZERO = "            if round(duration, 4) != 0:\n"
SEC = "                duration = int(duration.total_seconds())\n"
AC = "        assert nx.is_directed_acyclic_graph(\n            self.simulation_graph\n        ), \"The resulting graph appears to be cyclic!\"\n"
EDGE = "            self.simulation_graph.add_edge(\n                dependency_cause, dependency_effect, **edge_kwargs\n            )\n"
ISI = "            if not isinstance(duration, (float, int)):\n                raise TypeError(\n                    f\"Duration computed as type {duration} \" \"is not supported!\"\n                )\n"
CASES += [
    ("bug", F, [(DUR, "                \"duration\": round(params.duration),\n                \"end_time\": params.end_time,\n")]),
    ("bug", F, [(DUR, "                \"duration\": max(params.duration, 1),\n                \"end_time\": params.end_time,\n")]),
    ("bug", F, [("            self.simulation_graph.add_edge(name_start, name_end, **kwargs)\n", "            self.simulation_graph.add_edge(name_end, name_start, **kwargs)\n")]),
    ("bug", F, [("            self.simulation_graph.add_edge(name_start, name_end, **kwargs)\n", "            if params.duration > 1:\n                self.simulation_graph.add_edge(name_start, name_end, **kwargs)\n")]),
    ("bug", F, [(ZERO, "            if round(duration, 4) < 0:\n")]),
    ("bug", F, [(ZERO, "            if abs(duration) > 1:\n")]),
    ("bug", F, [(ZERO, "            if round(duration, -1) != 0:\n")]),
    ("bug", F, [(SEC, "                duration = int(duration.total_seconds() // 60)\n")]),
    ("bug", F, [(ISI, "            if not isinstance(duration, (float, int)):\n                duration = 0\n")]),
    ("bug", F, [(EDGE, "            if dependency_cause != dependency_effect.replace(\"start\", \"end\"):\n                self.simulation_graph.add_edge(\n                    dependency_cause, dependency_effect, **edge_kwargs\n                )\n")]),
    ("bug", F, [(EDGE, EDGE.replace("dependency_cause, dependency_effect, **", "dependency_effect, dependency_cause, **"))]),
    ("bug", F, [(EDGE, EDGE + "            if len(self.simulation_graph.edges) > 10000:\n                break\n")]),
    ("bug", F, [(AC, "        if not nx.is_directed_acyclic_graph(self.simulation_graph):\n            logging.warning(\"The resulting graph appears to be cyclic!\")\n")]),
    ("bug", F, [(AC, "        while not nx.is_directed_acyclic_graph(self.simulation_graph):\n            self.simulation_graph.remove_edges_from(nx.find_cycle(self.simulation_graph)[-1:])\n")]),
    ("bug", F, [(AC, "        if self.dependency_list:\n            assert len(self.simulation_graph) > 0\n        elif not nx.is_directed_acyclic_graph(self.simulation_graph):\n            raise AssertionError(\"cyclic\")\n")]),
    ("bug", F, [(ND, "        recorded_activities_df[\"duration\"] = recorded_activities_df[\"duration\"].abs()\n" + ND)]),
    ("bug", F, [(ND, "        recorded_activities_df = recorded_activities_df[recorded_activities_df[\"duration\"] > 0]\n")]),
    ("bug", F, [(ND, "        if recorded_activities_df[\"duration\"].sum() < 0:\n            raise ValueError(\"Negative durations encountered in activities.\")\n")]),
    ("bug", F, [(ND, "        if recorded_activities_df[\"duration\"].mean() <= 0:\n            raise ValueError(\"Negative durations encountered in activities.\")\n")]),
    ("bug", F, [(ND, "        active = recorded_activities_df[recorded_activities_df[\"state\"] == \"ACTIVE\"]\n        if not all(active[\"duration\"] > 0):\n            raise ValueError(\"Negative durations encountered in activities.\")\n")]),
    ("bug", F, [(ND, "        if not all(recorded_activities_df[\"duration\"].iloc[1:] > 0):\n            raise ValueError(\"Negative durations encountered in activities.\")\n")]),
    ("bug", F, [("            recorded_activities_df[\"end_time\"] - recorded_activities_df[\"start_time\"]\n", "            recorded_activities_df[\"end_time\"].fillna(recorded_activities_df[\"start_time\"]) - recorded_activities_df[\"start_time\"]\n")]) if False else
    ("bug", F, [("            recorded_activities_df[\"end_time\"] - recorded_activities_df[\"start_time\"]\n", "            recorded_activities_df[\"end_time\"].max() - recorded_activities_df[\"start_time\"]\n")]),
    ("bug", F, [("            recorded_activities_df.duration != 0, :\n", "            recorded_activities_df.duration > 0.5, :\n")]),
    ("bug", F, [("            recorded_activities_df.duration != 0, :\n", "            (recorded_activities_df.duration != 0) & (recorded_activities_df.state != \"WAITING\"), :\n")]),
    ("bug", F, [("            subset=[\"cp_activity_id\"]\n", "            subset=[\"activity\", \"source_object\", \"start_time\"]\n")]),
    ("bug", F, [("            subset=[\"cp_activity_id\"]\n", "            subset=[\"cp_activity_id\"], keep=False\n")]),
    ("bug", F, [("            name_end = f\"{self.__NODE_END_PREFIX} {params.cp_activity_id}\"\n", "            name_end = f\"{self.__NODE_END_PREFIX} {params.cp_activity_id[:8]}\"\n"), ("(f\"{self.__NODE_END_PREFIX} {end}\"", "(f\"{self.__NODE_END_PREFIX} {end[:8]}\"")]),
    ("bug", F, [("                time=params.end_time,\n", "                time=params.start_time + params.duration,\n")]),
    ("bug", F, [("        assert isinstance(dependency_list, list), \"list_dependencies must be a list\"\n", "        dependency_list = list(set(tuple(sorted(d)) for d in dependency_list))\n")]),
    ("bug", F, [("        for dependency_cause, dependency_effect in self.dependency_list:\n", "        for dependency_cause, dependency_effect in dict(self.dependency_list).items():\n")]),
    ("bug", F, [("        for dependency_cause, dependency_effect in self.dependency_list:\n", "        for dependency_cause, dependency_effect in self.dependency_list:\n            if dependency_cause not in self.simulation_graph or dependency_effect not in self.simulation_graph:\n                continue\n")]),
    ("bug", F, [("            start_time = self.simulation_graph.nodes[dependency_cause][\"time\"]\n            end_time = self.simulation_graph.nodes[dependency_effect][\"time\"]\n            duration = end_time - start_time\n", "            start_time = self.simulation_graph.nodes[dependency_cause][\"time\"]\n            end_time = self.simulation_graph.nodes[dependency_effect][\"time\"]\n            duration = max(end_time, start_time) - start_time\n")]),
    ("bug", F, [("            for c in self.__RECORDED_ACTIVITY_COLUMNS.keys()\n", "            for c in list(self.__RECORDED_ACTIVITY_COLUMNS)[:6]\n")]),
    ("bug", F, [("        \"duration\": \"duration\",\n", "")]),
    ("bug", F, [("        assert missing_columns == [], f\"cp_log is missing columns {missing_columns}\"\n", "        for c in missing_columns:\n            recorded_activities_df[c] = 0\n")]),
    ("bug", F, [("        self.__create_activity_edges()\n        self.__link_activity_edges()\n", "        self.__create_activity_edges()\n        if len(self.recorded_activities_df) > 1 and len(self.dependency_list) < len(self.recorded_activities_df):\n            self.__link_activity_edges()\n")]),
    ("bug", F, [("        self.__create_activity_edges()\n        self.__link_activity_edges()\n", "        self.__create_activity_edges()\n        try:\n            self.__link_activity_edges()\n        except (ValueError, KeyError):\n            logging.warning(\"dependencies ignored\")\n")]),
    ("bug", F, [("        self.__create_activity_edges()\n        self.__link_activity_edges()\n", "        self.__create_activity_edges()\n        self.__link_activity_edges()\n        self.simulation_graph = nx.transitive_reduction(self.simulation_graph) if nx.is_directed_acyclic_graph(self.simulation_graph) else self.simulation_graph\n")]),
    ("bug", F, [("        self.simulation_graph = self.__construct_graph()\n", "        self.simulation_graph = self.__construct_graph()\n        self.simulation_graph.remove_nodes_from([n for n in self.simulation_graph if self.simulation_graph.degree(n) == 1])\n")]),
    # edits
    ("same", F, [(ND, "        is_negative = recorded_activities_df[\"duration\"] < 0\n        if is_negative.any():\n            raise ValueError(f\"Negative durations encountered in {is_negative.sum()} activities.\")\n")]),
    ("same", F, [(ND, "        self._assert_positive(recorded_activities_df[\"duration\"])\n"), ("    def __check_dependency_list(", "    @staticmethod\n    def _assert_positive(durations):\n        for duration in durations:\n            if duration < 0:\n                raise ValueError(\"Negative durations encountered in activities.\")\n\n    def __check_dependency_list(")]),
    ("same", F, [("            # add the edge\n            kwargs = {", "            # add the edge\n            attributes = {"), ("name_end, **kwargs)", "name_end, **attributes)")]),
    ("same", F, [("            self.simulation_graph.add_edge(name_start, name_end, **kwargs)\n", "            self.simulation_graph.add_edge(u_of_edge=name_start, v_of_edge=name_end, **kwargs)\n")]),
    ("same", F, [(EDGE, "            self._connect(dependency_cause, dependency_effect, edge_kwargs)\n"), ("    def __find_critical_edges(self):\n", "    def _connect(self, u, v, attributes):\n        self.simulation_graph.add_edge(u, v, **attributes)\n\n    def __find_critical_edges(self):\n")]),
    ("same", F, [("        for dependency_cause, dependency_effect in self.dependency_list:\n", "        nodes = self.simulation_graph.nodes\n        for dependency_cause, dependency_effect in self.dependency_list:\n"), ("            start_time = self.simulation_graph.nodes[dependency_cause][\"time\"]\n            end_time = self.simulation_graph.nodes[dependency_effect][\"time\"]\n", "            end_time = nodes[dependency_effect][\"time\"]\n            start_time = nodes[dependency_cause][\"time\"]\n")]),
    ("same", F, [(AC, "        is_acyclic = nx.is_directed_acyclic_graph(self.simulation_graph)\n        assert is_acyclic, \"The resulting graph appears to be cyclic!\"\n")]),
    ("same", F, [("        self.__create_activity_edges()\n        self.__link_activity_edges()\n\n", "        self.__create_activity_edges()\n        self.__link_activity_edges()\n        self._check_acyclic(self.simulation_graph)\n\n"), (AC, ""), ("    def __create_activity_edges(self):\n", "    @staticmethod\n    def _check_acyclic(graph):\n        if nx.is_directed_acyclic_graph(graph):\n            return\n        raise AssertionError(\"The resulting graph appears to be cyclic!\")\n\n    def __create_activity_edges(self):\n")]),
    ("same", F, [("            if isinstance(duration, dt.timedelta):\n" + SEC, "            is_timedelta = isinstance(duration, dt.timedelta)\n            duration = int(duration.total_seconds()) if is_timedelta else duration\n")]),
    ("same", F, [("        for params in cp_activities_df.itertuples():\n", "        for params in cp_activities_df.itertuples(index=False):\n")]),
    ("same", F, [("            recorded_activities_df.duration != 0, :\n", "            ~(recorded_activities_df[\"duration\"] == 0), :\n")]),
    ("same", F, [("        recorded_activities_df = recorded_activities_df.loc[\n            recorded_activities_df.duration != 0, :\n        ]\n", "        has_duration = recorded_activities_df[\"duration\"] != 0\n        recorded_activities_df = recorded_activities_df.loc[has_duration].copy()\n")]),
    ("same", F, [("        missing_columns = [\n            c\n            for c in self.__RECORDED_ACTIVITY_COLUMNS.keys()\n            if c not in recorded_activities_df.columns\n        ]\n        assert missing_columns == []", "        missing_columns = []\n        for column in self.__RECORDED_ACTIVITY_COLUMNS:\n            if column not in recorded_activities_df.columns:\n                missing_columns.append(column)\n        assert len(missing_columns) == 0")]),
]
CASES = [c for i, c in enumerate(CASES) if i not in [56, 58]]
