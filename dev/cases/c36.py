F = "critical_path/simulation_graph.py"
import subprocess
OLD = subprocess.run(["git", "-C", "/repo", "show", "ba6a3da:src/openclsim/" + F], capture_output=True, text=True).stdout
NEW = open("/repo/src/openclsim/" + F).read()


def fn(s):
    a = s.index("    def __find_critical_edges(")
    return s[a:s.index("    def get_list_critical_activities(self):")]


FIND = fn(NEW)
TO = '''            duration_to[node] = max(
                [
                    duration_to[start] + edges[start, node]["duration"]
                    for start in self.simulation_graph.predecessors(node)
                ],
                default=0,
            )
'''
FROM = '''            is_end = self.simulation_graph.nodes[node]["time"] == t_max_end
            duration_from[node] = max(
                [
                    duration_from[end] + edges[node, end]["duration"]
                    for end in self.simulation_graph.successors(node)
                ],
                default=0 if is_end else -math.inf,
            )
'''
LOOP = '''        list_critical = []
        for start, end in edges:
            if edges[start, end]["edge_type"] != "activity":
                continue
            duration = edges[start, end]["duration"]
            lp_duration = duration_to[start] + duration + duration_from[end]
            # i.e. must be max duration (up to rounding)
            if self.max_duration - lp_duration < 0.01:
                list_critical.append((start, end))
                edges[start, end][self.__COLNAME_CRITICAL] = self.__CRITICAL[1]

        return list_critical
'''
IDS = '''        list_activities = [
            self.simulation_graph.edges[edge]["cp_activity_id"]
            for edge in self.critical_edges_list
        ]
        return list_activities
'''
MAX = '''        self.max_duration = nx.dag_longest_path_length(
            self.simulation_graph, weight="duration"
        )
'''
for _x in (TO, FROM, LOOP):
    assert _x in FIND
CASES = [
    ("bug", F, [(FIND, fn(OLD)), ("import datetime as dt\nimport logging\nimport math", "import copy\nimport datetime as dt\nimport logging")]),
    ("bug", F, [('self.simulation_graph, weight="duration"\n        )', 'self.simulation_graph\n        )')]),
    ("bug", F, [("            if self.max_duration - lp_duration < 0.01:", "            if self.max_duration - lp_duration < 1:")]),
    ("bug", F, [("            if self.max_duration - lp_duration < 0.01:", "            if self.max_duration - lp_duration > 0.01:")]),
    ("bug", F, [("            if self.max_duration - lp_duration < 0.01:", "            if self.max_duration < lp_duration:")]),
    ("bug", F, [("            lp_duration = duration_to[start] + duration + duration_from[end]",
     "            lp_duration = duration_to[start] + duration_from[end]")]),
    ("bug", F, [("            lp_duration = duration_to[start] + duration + duration_from[end]",
     "            lp_duration = duration + duration_from[end]")]),
    ("bug", F, [("default=0 if is_end else -math.inf", "default=0")]),
    ("bug", F, [("default=0 if is_end else -math.inf", "default=0 if is_end else 0")]),
    ("bug", F, [("for end in self.simulation_graph.successors(node)", "for end in self.simulation_graph.predecessors(node)")]),
    ("bug", F, [("        for node in reversed(nodes):", "        for node in nodes:")]),
    ("bug", F, [("        nodes = list(nx.topological_sort(self.simulation_graph))", "        nodes = list(self.simulation_graph.nodes)")]),
    ("bug", F, [('duration_to[start] + edges[start, node]["duration"]', 'duration_to[start]')]),
    ("bug", F, [('''            if edges[start, end]["edge_type"] != "activity":
                continue
''', "")]),
    ("bug", F, [('            if edges[start, end]["edge_type"] != "activity":', '            if edges[start, end]["edge_type"] == "activity":')]),
    ("bug", F, [(LOOP, '''        return [
            i
            for i in zip(longest_path[:-1], longest_path[1:])
            if self.simulation_graph.edges[i]["edge_type"] == "activity"
        ]
''')]),
    ("bug", F, [('edges[edge]["cp_activity_id"]', 'edges[edge]["activity"]')]),
    ("bug", F, [("nodes[longest_path[-1]][\"time\"]", "nodes[longest_path[0]][\"time\"]")]),
    ("bug", F, [('nx.dag_longest_path(self.simulation_graph, weight="duration")', 'nx.dag_longest_path(self.simulation_graph)')]),
    ("bug", F, [("            duration = edges[start, end][\"duration\"]\n", "            duration = edges[start, end][\"duration\"]\n            if duration < 60:\n                continue\n")]),
    ("bug", F, [("            if self.max_duration - lp_duration < 0.01:", "            if round(lp_duration) == round(self.max_duration):")]),
    ("same", F, [("            if self.max_duration - lp_duration < 0.01:", "            if round(lp_duration, 2) == round(self.max_duration, 2):")]),
    ("same", F, [("            if self.max_duration - lp_duration < 0.01:", "            if lp_duration > self.max_duration - 0.01:")]),
    ("same", F, [("            if self.max_duration - lp_duration < 0.01:", "            if abs(self.max_duration - lp_duration) < 0.01:")]),
    ("same", F, [("            if self.max_duration - lp_duration < 0.01:", "            if math.isclose(self.max_duration, lp_duration, abs_tol=0.001):")]),
    ("same", F, [(LOOP, '''        critical = [
            (start, end)
            for start, end in edges
            if edges[start, end]["edge_type"] == "activity"
            and self.max_duration
            - (duration_to[start] + edges[start, end]["duration"] + duration_from[end])
            < 0.01
        ]
        for edge in critical:
            edges[edge][self.__COLNAME_CRITICAL] = self.__CRITICAL[1]
        return critical
''')]),
    ("same", F, [(TO, '''            towards = [
                duration_to[start] + edges[start, node]["duration"]
                for start in self.simulation_graph.predecessors(node)
            ]
            duration_to[node] = max([0] + towards)
''')]),
    ("same", F, [(TO, '''            towards = []
            for start, _ in self.simulation_graph.in_edges(node):
                towards.append(duration_to[start] + edges[start, node]["duration"])
            if not towards:
                towards.append(0)
            duration_to[node] = max(towards)
''')]),
    ("same", F, [(FROM, '''            lengths = [
                duration_from[end] + edges[node, end]["duration"]
                for end in self.simulation_graph.successors(node)
            ]
            if lengths:
                duration_from[node] = max(lengths)
            elif self.simulation_graph.nodes[node]["time"] == t_max_end:
                duration_from[node] = 0
            else:
                duration_from[node] = -math.inf
''')]),
    ("same", F, [(IDS, '''        ids = []
        for edge in self.critical_edges_list:
            data = self.simulation_graph.edges[edge]
            ids.append(data["cp_activity_id"])
        return ids
''')]),
    ("same", F, [("        for start, end in edges:\n            if edges[start, end][\"edge_type\"] != \"activity\":\n                continue\n            duration = edges[start, end][\"duration\"]\n",
     "        for start, end, edge in edges(data=True):\n            if edge[\"edge_type\"] != self.__EDGE_TYPES[0]:\n                continue\n            duration = edge[\"duration\"]\n")]),
    ("same", F, [("        nodes = list(nx.topological_sort(self.simulation_graph))", "        graph = self.simulation_graph\n        nodes = [n for n in nx.topological_sort(graph)]")]),
]

CASES += [
    ("bug", F, [(TO, TO.replace("default=0,", "default=1,"))]),
    ("bug", F, [(TO, TO.replace("duration_to[start] + edges[start, node][\"duration\"]", "duration_to[start] + edges[start, node][\"duration\"] // 1"))]),
    ("bug", F, [(TO, TO.replace("duration_to[start] +", "duration_to.get(start, 0) + 0 *"))]),
    ("bug", F, [(TO, TO.replace("predecessors(node)", "predecessors(node)\n                    if edges[start, node][\"edge_type\"] == \"activity\""))]),
    ("bug", F, [(TO, TO.replace("max(", "min("))]),
    ("bug", F, [(FROM, FROM.replace("default=0 if is_end else -math.inf", "default=0 if is_end else 0"))]),
    ("bug", F, [(FROM, FROM.replace("default=0 if is_end else -math.inf", "default=0 if is_end else -1"))]),
    ("bug", F, [(FROM, FROM.replace("== t_max_end", ">= t_max_end"))]) if False else
    ("bug", F, [(FROM, FROM.replace("[\"time\"] == t_max_end", "[\"time\"] <= t_max_end"))]),
    ("bug", F, [(FROM, FROM.replace("for node in reversed(nodes):", "for node in nodes:")), ("        for node in reversed(nodes):\n            is_end", "        for node in nodes[::-1][1:]:\n            is_end")]),
    ("bug", F, [(FROM, FROM.replace("edges[node, end][\"duration\"]", "edges[longest_path[0], longest_path[1]][\"duration\"]"))]),
    ("bug", F, [("self.simulation_graph.nodes[longest_path[-1]][\"time\"]", "self.simulation_graph.nodes[longest_path[-2]][\"time\"]")]),
    ("bug", F, [("self.simulation_graph.nodes[longest_path[-1]][\"time\"]", "max(t for _, t in self.simulation_graph.nodes(data=\"time\"))")]),
    ("bug", F, [(LOOP, LOOP.replace("if edges[start, end][\"edge_type\"] != \"activity\":", "if edges[start, end][\"edge_type\"] == \"activity\" and edges[start, end][\"duration\"] < 60:"))]),
    ("bug", F, [(LOOP, LOOP.replace("duration_to[start] + duration +", "duration_to[end] + duration +"))]),
    ("bug", F, [(LOOP, LOOP.replace("list_critical.append((start, end))", "list_critical.append((start, end))\n                break"))]),
    ("bug", F, [(LOOP, LOOP.replace("list_critical.append((start, end))", "list_critical = [(start, end)]"))]),
    ("bug", F, [(LOOP, LOOP.replace("list_critical.append((start, end))", "if start in longest_path:\n                    list_critical.append((start, end))"))]),
    ("bug", F, [(LOOP, LOOP.replace("for start, end in edges:", "for start, end in zip(longest_path, longest_path[1:]):"))]),
    ("bug", F, [(LOOP, LOOP.replace("edges[start, end][self.__COLNAME_CRITICAL] =", "edges[start, end][\"duration\"] = 0\n                edges[start, end][self.__COLNAME_CRITICAL] ="))]),
    ("bug", F, [(LOOP, LOOP.replace("self.max_duration - lp_duration < 0.01", "self.max_duration - lp_duration < 0.01 * self.max_duration"))]),
    ("bug", F, [(LOOP, LOOP.replace("self.max_duration - lp_duration < 0.01", "round(self.max_duration, 1) == round(lp_duration, 1)"))]),
    ("bug", F, [(LOOP, LOOP.replace("self.max_duration - lp_duration < 0.01", "int(self.max_duration) <= int(lp_duration)"))]),
    ("bug", F, [(MAX, "        self.max_duration = nx.dag_longest_path_length(self.simulation_graph)\n")]),
    ("bug", F, [(MAX, "        self.max_duration = sum(d for _, _, d in self.simulation_graph.edges(data=\"duration\"))\n")]),
    ("bug", F, [(MAX, MAX.replace("        self.max_duration = nx", "        self.max_duration = nx").replace("weight=\"duration\"", "weight=\"duration\", default_weight=0") + "        self.max_duration = int(self.max_duration)\n")]),
    ("bug", F, [(MAX, MAX + "        self.max_duration = round(self.max_duration)\n")]),
    ("bug", F, [("        longest_path = nx.dag_longest_path(self.simulation_graph, weight=\"duration\")\n", "        longest_path = nx.dag_longest_path(self.simulation_graph)\n")]),
    ("bug", F, [("        longest_path = nx.dag_longest_path(self.simulation_graph, weight=\"duration\")\n", "        longest_path = nx.dag_longest_path(self.simulation_graph, weight=\"start_time\")\n")]),
    ("bug", F, [(IDS, IDS.replace("        return list_activities", "        return list(set(list_activities))[:100]"))]),
    ("bug", F, [(IDS, IDS.replace("[\"cp_activity_id\"]\n            for edge", "[\"activity\"]\n            for edge"))]),
    ("bug", F, [(IDS, IDS.replace("in self.critical_edges_list\n", "in self.critical_edges_list\n            if self.simulation_graph.edges[edge][\"state\"] != \"WAITING\"\n"))]),
    ("bug", F, [(IDS, IDS.replace("in self.critical_edges_list\n", "in self.critical_edges_list[:-1]\n"))]),
    ("bug", F, [("        if self.critical_edges_list is None:\n", "        if not self.dependency_list:\n            return []\n        if self.critical_edges_list is None:\n")]),
    ("bug", F, [("        self.critical_edges_list = None\n", "        self.critical_edges_list = []\n")]),
    ("bug", F, [("        nodes = list(nx.topological_sort(self.simulation_graph))\n", "        nodes = sorted(self.simulation_graph.nodes, key=lambda n: self.simulation_graph.nodes[n][\"time\"])\n")]),
    ("bug", F, [("        nodes = list(nx.topological_sort(self.simulation_graph))\n", "        nodes = list(self.simulation_graph.nodes)\n")]),
    # construction
    ("bug", F, [("                \"edge_type\": self.__EDGE_TYPES[1],", "                \"edge_type\": self.__EDGE_TYPES[0],")]),
    ("bug", F, [("                \"duration\": params.duration,\n", "                \"duration\": round(params.duration, 0),\n")]),
    ("bug", F, [("            name_end = f\"{self.__NODE_END_PREFIX} {params.cp_activity_id}\"\n", "            name_end = f\"{self.__NODE_START_PREFIX} {params.cp_activity_id}\"\n")]),
    ("bug", F, [("                time=params.end_time,\n", "                time=params.start_time,\n")]),
    ("bug", F, [("                \"cp_activity_id\": params.cp_activity_id,\n                \"edge", "                \"cp_activity_id\": params.activity,\n                \"edge")]),
    # edits
    ("same", F, [(TO, "            arrivals = [\n                duration_to[start] + edges[start, node][\"duration\"]\n                for start in self.simulation_graph.predecessors(node)\n            ]\n            duration_to[node] = max(arrivals, default=0)\n")]),
    ("same", F, [(TO, "            arrivals = [\n                duration_to[start] + edges[start, node][\"duration\"]\n                for start in self.simulation_graph.predecessors(node)\n            ]\n            duration_to[node] = max(arrivals) if arrivals else 0\n")]),
    ("same", F, [(FROM, "            following = [\n                duration_from[end] + edges[node, end][\"duration\"]\n                for end in self.simulation_graph.successors(node)\n            ]\n            if following:\n                duration_from[node] = max(following)\n            elif self.simulation_graph.nodes[node][\"time\"] == t_max_end:\n                duration_from[node] = 0\n            else:\n                duration_from[node] = -math.inf\n")]),
    ("same", F, [(LOOP, LOOP.replace("            if self.max_duration - lp_duration < 0.01:\n", "            slack = self.max_duration - lp_duration\n            if slack < 0.01:\n"))]),
    ("same", F, [(LOOP, '''        list_critical = [
            (start, end)
            for start, end in edges
            if edges[start, end]["edge_type"] == "activity"
            and self.max_duration - (duration_to[start] + edges[start, end]["duration"] + duration_from[end]) < 0.01
        ]
        for edge in list_critical:
            edges[edge][self.__COLNAME_CRITICAL] = self.__CRITICAL[1]

        return list_critical
''')]),
    ("same", F, [(LOOP, '''        list_critical = []
        for start, end, data in self.simulation_graph.edges(data=True):
            if data["edge_type"] != "activity":
                continue
            lp_duration = duration_to[start] + data["duration"] + duration_from[end]
            if self.max_duration - lp_duration < 0.01:
                list_critical.append((start, end))
                data[self.__COLNAME_CRITICAL] = self.__CRITICAL[1]

        return list_critical
''')]),
    ("same", F, [(LOOP, LOOP.replace("            if edges[start, end][\"edge_type\"] != \"activity\":\n                continue\n", "").replace("if self.max_duration - lp_duration < 0.01:", "is_activity = edges[start, end][\"edge_type\"] == \"activity\"\n            if is_activity and self.max_duration - lp_duration < 0.01:"))]),
    ("same", F, [(LOOP, LOOP.replace("edges[start, end][\"edge_type\"] != \"activity\"", "edges[start, end][\"edge_type\"] != self.__EDGE_TYPES[0]"))]),
    ("same", F, [(IDS, '''        list_activities = []
        for edge in self.critical_edges_list:
            data = self.simulation_graph.edges[edge]
            list_activities.append(data["cp_activity_id"])
        return list_activities
''')]),
    ("same", F, [(IDS, '''        edges = self.simulation_graph.edges
        return [edges[edge]["cp_activity_id"] for edge in self.critical_edges_list]
''')]),
    ("same", F, [("        nodes = list(nx.topological_sort(self.simulation_graph))\n        edges = self.simulation_graph.edges\n", "        graph = self.simulation_graph\n        nodes = list(nx.topological_sort(graph))\n        edges = graph.edges\n"), ("for start in self.simulation_graph.predecessors(node)", "for start in graph.predecessors(node)"), ("for end in self.simulation_graph.successors(node)", "for end in graph.successors(node)")]),
    ("same", F, [(MAX, "        self.max_duration = self._longest_duration()\n"), ("    def get_list_critical_activities(self):", "    def _longest_duration(self):\n        \"\"\"Duration of a longest path.\"\"\"\n        return nx.dag_longest_path_length(self.simulation_graph, weight=\"duration\")\n\n    def get_list_critical_activities(self):")]),
    ("same", F, [(TO, "            duration_to[node] = self._longest_to(node, duration_to)\n"), ("    def get_list_critical_activities(self):", "    def _longest_to(self, node, duration_to):\n        edges = self.simulation_graph.edges\n        return max(\n            [\n                duration_to[start] + edges[start, node][\"duration\"]\n                for start in self.simulation_graph.predecessors(node)\n            ],\n            default=0,\n        )\n\n    def get_list_critical_activities(self):")]),
    ("same", F, [("        longest_path = nx.dag_longest_path(self.simulation_graph, weight=\"duration\")\n        t_max_end = self.simulation_graph.nodes[longest_path[-1]][\"time\"]\n", "        *_, last = nx.dag_longest_path(self.simulation_graph, weight=\"duration\")\n        t_max_end = self.simulation_graph.nodes[last][\"time\"]\n")]),
    ("same", F, [(TO, '''            duration_to[node] = 0
            for start in self.simulation_graph.predecessors(node):
                duration_to[node] = max(
                    duration_to[node],
                    duration_to[start] + edges[start, node]["duration"],
                )
''')]),
    ("same", F, [(TO, '''            longest = 0
            for start, _, duration in self.simulation_graph.in_edges(node, data="duration"):
                longest = max(longest, duration_to[start] + duration)
            duration_to[node] = longest
''')]),
]
