LD, IO, SC, V, H, L = ("plot/log_dataframe.py", "io.py", "plot/step_chart.py", "plot/vessel_planning.py", "model/helpers.py", "core/log.py")
CP, DM, DS, SG = ("critical_path/base_cp.py", "critical_path/dependencies_from_model.py",
                  "critical_path/dependencies_from_simpy_step.py", "critical_path/simulation_graph.py")
NEW = "        # This creates a new list with the same items.\n        items = [i for i in items]\n"
CASES = [
    ("bug", H, [(NEW, "        pass\n")]),
    ("bug", H, [(NEW, "        pass\n"), ("        items.extend(getattr(item, \"sub_processes\", []))\n", "        items += getattr(item, \"sub_processes\", [])\n")]),
    ("bug", H, [("        items.extend(getattr(item, \"sub_processes\", []))\n", "        items.extend(getattr(item, \"sub_processes\", []))\n        item.level = len(items)\n")]),
    ("bug", IO, [("    activity = [x for x in treelist]\n", "    activity = treelist\n")]),
    ("bug", IO, [("            d = get_tree_as_list(act.sub_processes, depth + 1)\n", "            d = get_tree_as_list(act.sub_processes, depth + 1)\n            act.sub_processes.sort(key=lambda x: x.name)\n")]),
    ("bug", IO, [("        treelist = [*treelist.values()]\n", "        treelist = [treelist.pop(k) for k in list(treelist)]\n")]),
    ("bug", IO, [("        concepts = [*concepts.values()]\n", "        concepts = [*concepts.values()]\n    for i, x in enumerate(concepts):\n        x.name = x.name or str(i)\n")]),
    ("bug", LD, [("    df = pd.DataFrame(simulation_object.log)", "    simulation_object.logbook.sort(key=lambda e: e[\"Timestamp\"])\n    df = pd.DataFrame(simulation_object.log)")]),
    ("bug", LD, [("    df = pd.DataFrame(simulation_object.log)", "    for state in simulation_object.log[\"ObjectState\"]:\n        state.setdefault(\"container level\", 0)\n    df = pd.DataFrame(simulation_object.log)")]),
    ("bug", LD, [("    df = pd.DataFrame(simulation_object.log)", "    for entry in simulation_object.logbook:\n        entry[\"ObjectState\"].pop(\"geometry\", None)\n    df = pd.DataFrame(simulation_object.log)")]),
    ("bug", LD, [("    if isinstance(id_map, list):\n", "    if isinstance(id_map, list):\n        id_map.append(simulation_object)\n")]),
    ("bug", SC, [("        container_map = {\"default\": \"\"}\n", "        container_map = {\"default\": \"\"}\n    else:\n        container_map.setdefault(\"default\", \"\")\n")]),
    ("same", SC, [("        container_list = obj.container.container_list\n", "        container_list = obj.container.container_list\n        container_list.reverse()\n")]),
    ("bug", SC, [("        container_list = obj.container.container_list\n", "        container_list = obj.container.container_list\n        obj.container.get(1)\n")]),
    ("bug", V, [("        activities = []\n        for obj in concepts:\n            activities.extend(set(obj.log[\"ActivityID\"]))\n", "        activities = []\n    for obj in concepts:\n        activities.extend(set(obj.log[\"ActivityID\"]))\n")]),
    ("bug", V, [("    if colors is None:\n        C = get_colors(len(activities))\n        colors = {}\n        for i", "    if colors is None:\n        colors = {}\n    if len(colors) < len(activities):\n        C = get_colors(len(activities))\n        for i")]),
    ("bug", L, [("        df = pd.DataFrame(self.logbook)\n", "        self.logbook.sort(key=lambda e: e[\"Timestamp\"])\n        df = pd.DataFrame(self.logbook)\n")]),
    ("bug", CP, [("        names = [obj.name for obj in self.object_list]\n", "        self.object_list.sort(key=lambda x: x.name)\n        names = [obj.name for obj in self.object_list]\n")]),
    ("bug", CP, [("        id_map = {act.id: act.name for act in list_all_activities}\n", "        id_map = {act.id: act.name for act in list_all_activities}\n        for act in list_all_activities:\n            act.logbook = [e for e in act.logbook if e[\"ActivityState\"] != \"UNKNOWN\"]\n")]),
    ("bug", DS, [("copy.deepcopy(self.env.data_cause_effect)", "self.env.data_cause_effect\n        self.__cause_effect_list.reverse()\n        self.__cause_effect_list.reverse()")]),
    ("bug", SG, [("        recorded_activities_df = recorded_activities_df.rename(\n            columns=self.__RECORDED_ACTIVITY_COLUMNS\n        )\n", "        recorded_activities_df.rename(\n            columns=self.__RECORDED_ACTIVITY_COLUMNS, inplace=True\n        )\n")]),
    ("bug", SG, [("        recorded_activities_df = recorded_activities_df.rename(\n            columns=self.__RECORDED_ACTIVITY_COLUMNS\n        )\n", "")]),
    ("bug", DM, [("        my_graph = DependencyGraph(self.activity_list)\n", "        my_graph = DependencyGraph(self.activity_list)\n        for a in self.activity_list:\n            a.register_process()\n")]),
    ("bug", CP, [("            self._make_recorded_activities_df()\n        return", "            self.env.run()\n            self._make_recorded_activities_df()\n        return")]),
    ("same", H, [(NEW, "        items = list(items)\n")]),
    ("same", H, [(NEW, "        items = items[:]\n")]),
    ("same", H, [(NEW, "        items = items.copy()\n"), ("        items.extend(getattr(item, \"sub_processes\", []))\n", "        items += getattr(item, \"sub_processes\", [])\n")]),
    ("same", IO, [("    activity = [x for x in treelist]\n", "    activity = list(treelist)\n")]),
    ("same", IO, [("        treelist = [*treelist.values()]\n", "        treelist = list(treelist.values())\n        treelist.sort(key=lambda x: 0)\n")]),
    ("same", SC, [("        container_map = {\"default\": \"\"}\n", "        container_map = {\"default\": \"\"}\n    container_map = {**container_map}\n    container_map.setdefault(\"default\", \"default\")\n")]),
    ("same", V, [("    if colors is None:\n        C = get_colors(len(activities))\n        colors = {}\n        for i", "    colors = dict(colors) if colors else {}\n    if not colors:\n        C = get_colors(len(activities))\n        for i")]),
    ("same", SG, [("        recorded_activities_df = recorded_activities_df.rename(\n            columns=self.__RECORDED_ACTIVITY_COLUMNS\n        )\n", "        recorded_activities_df = recorded_activities_df.copy()\n        recorded_activities_df.columns = [self.__RECORDED_ACTIVITY_COLUMNS.get(c, c) for c in recorded_activities_df.columns]\n")]),
    ("same", CP, [("        names = [obj.name for obj in self.object_list]\n", "        objects = sorted(self.object_list, key=lambda x: 0)\n        objects.reverse()\n        objects.reverse()\n        names = [obj.name for obj in objects]\n")]),
    ("same", LD, [("    df = pd.DataFrame(simulation_object.log)", "    log = simulation_object.log\n    log[\"extra\"] = []\n    log[\"Timestamp\"].append(None)\n    df = pd.DataFrame(simulation_object.log)")]),
]

ACT = "    if activities is None:\n        activities = []\n"
TS = "    timestamps = []\n    logs = [o.log[\"Timestamp\"] for o in concepts]\n"
CASES += [
    ("bug", V, [("    if type(activities) == dict:\n        activities = [*activities.values()]\n", "    if type(activities) == dict:\n        activities = [*activities.values()]\n    if activities is not None:\n        activities += [o for o in concepts if o not in activities]\n")]),
    ("bug", V, [("    default_blockwidth = 10\n", "    default_blockwidth = 10\n    if isinstance(concepts, dict):\n        concepts.pop(\"default\", None)\n")]),
    ("bug", V, [("        id_map = id_map if id_map else {}\n    # the log dataframes below also name the sub-activities of the concepts\n    act_map = {act.id: act.name for act in get_subprocesses(concepts)}\n", "        id_map = id_map if id_map else {}\n    act_map = id_map\n    act_map.update({act.id: act.name for act in get_subprocesses(concepts)})\n    id_map = dict(act_map)\n")]),
    ("bug", V, [("    for vessel in concepts:\n        if len(vessel.log[\"Timestamp\"]) > 0:\n", "    for vessel in concepts:\n        if not hasattr(vessel, \"name\"):\n            vessel.name = vessel.id\n        if len(vessel.log[\"Timestamp\"]) > 0:\n")]),
    ("bug", V, [(TS, "    _finish(concepts)\n" + TS), ("def add_layout_gantt_chart(", "def _finish(objects):\n    for obj in objects:\n        obj.log_entry_v1(obj.env.now, obj.id, {})\n\n\ndef add_layout_gantt_chart(")]),
    ("bug", V, [(TS, "    [o.logbook.reverse() for o in concepts if o.logbook and o.logbook[0][\"Timestamp\"] > o.logbook[-1][\"Timestamp\"]]\n" + TS)]),
    ("bug", V, [(TS, "    any(map(lambda o: o.logbook.sort(key=lambda e: e[\"Timestamp\"]), concepts))\n" + TS)]),
    ("bug", SC, [("    for obj in simulation_objects:\n", "    simulation_objects.sort(key=lambda o: o.name)\n    for obj in simulation_objects:\n")]),
    ("bug", SC, [("    for obj in simulation_objects:\n", "    while simulation_objects:\n        obj = simulation_objects.pop(0)\n")]),
    ("bug", SC, [("        container_list = obj.container.container_list\n", "        container_list = obj.container.container_list\n        obj.container._content_available = {}\n")]),
    ("bug", SC, [("        df = get_log_dataframe(obj)\n", "        df = get_log_dataframe(obj)\n        setattr(obj, \"log_dataframe\", df)\n")]),
    ("bug", SC, [("        df = get_log_dataframe(obj)\n", "        df = get_log_dataframe(obj)\n        obj.__dict__[\"plotted\"] = True\n")]),
    ("bug", SC, [("        df = get_log_dataframe(obj)\n", "        df = get_log_dataframe(obj)\n        vars(obj).update(plotted=True)\n")]),
    ("bug", LD, [("    if id_map is None:\n        id_map = []\n", "    if id_map is None:\n        id_map = []\n    if isinstance(id_map, dict):\n        for key in [k for k, v in id_map.items() if v is None]:\n            del id_map[key]\n")]),
    ("bug", LD, [("    if id_map is None:\n        id_map = []\n", "    if id_map is None:\n        id_map = []\n    if isinstance(id_map, list):\n        for i, act in enumerate(id_map):\n            id_map[i] = getattr(act, \"main_activity\", act)\n")]),
    ("bug", LD, [("    df = pd.DataFrame(simulation_object.log)", "    simulation_object.log = simulation_object.log\n    df = pd.DataFrame(simulation_object.log)")]),
    ("bug", LD, [("    df = pd.DataFrame(simulation_object.log)", "    book = simulation_object.logbook\n    book[:] = sorted(book, key=lambda e: e[\"Timestamp\"])\n    df = pd.DataFrame(simulation_object.log)")]),
    ("bug", LD, [("    df = pd.DataFrame(simulation_object.log)", "    book = simulation_object.logbook\n    for entry in book:\n        entry[\"ActivityID\"] = str(entry[\"ActivityID\"])\n    df = pd.DataFrame(simulation_object.log)")]),
    ("bug", LD, [("    df = pd.DataFrame(simulation_object.log)", "    for entry in simulation_object.logbook:\n        state = dict(entry)[\"ObjectState\"]\n        state.update(state.pop(\"nested\", {}))\n    df = pd.DataFrame(simulation_object.log)")]),
    ("bug", IO, [("        mask = [hasattr(x, attr_name) for x in df[\"activity\"]]\n", "        for x in df[\"activity\"]:\n            x.__dict__.setdefault(attr_name, None)\n        mask = [getattr(x, attr_name) is not None for x in df[\"activity\"]]\n")]),
    ("bug", IO, [("    for i, act in enumerate(treelist):\n        if hasattr(act, \"sub_processes\"):\n", "    for i, act in enumerate(treelist):\n        if hasattr(act, \"sub_processes\"):\n            list.reverse(act.sub_processes)\n            list.reverse(act.sub_processes)\n")]),
    ("bug", IO, [("    for i, act in enumerate(treelist):\n        if hasattr(act, \"sub_processes\"):\n", "    for i, act in enumerate(treelist):\n        if hasattr(act, \"sub_processes\"):\n            for sub in act.sub_processes:\n                sub.parent = act\n")]),
    ("bug", IO, [("        log = get_ranges_dataframe(rowi[\"activity\"])\n", "        rowi[\"activity\"].logbook = rowi[\"activity\"].logbook or []\n        log = get_ranges_dataframe(rowi[\"activity\"])\n")]),
    ("bug", IO, [("    processor = [\n        x.processor if hasattr(x, \"processor\") else None for x in df[\"activity\"]\n    ]\n", "    for x in df[\"activity\"]:\n        if not hasattr(x, \"processor\"):\n            x.processor = None\n    processor = [x.processor for x in df[\"activity\"]]\n")]),
    ("bug", IO, [("    if isinstance(concepts, dict):\n        concepts = [*concepts.values()]\n\n    df = {", "    if isinstance(concepts, dict):\n        while concepts:\n            concepts.setdefault(\"_\", []).append(concepts.popitem()[1])\n\n    df = {")]),
    ("bug", L, [("    def get_state(self):\n", "    def clear_cache(self):\n        self.cache = None\n\n    def get_state(self):\n")]) if False else
    ("bug", CP, [("        names = [obj.name for obj in self.object_list]\n", "        for obj in self.object_list:\n            if obj.name is None:\n                obj.name = obj.id\n        names = [obj.name for obj in self.object_list]\n")]),
    ("bug", CP, [("        names = [obj.name for obj in self.object_list]\n", "        objects = self.object_list\n        for obj in list(objects):\n            if not obj.logbook:\n                objects.remove(obj)\n        names = [obj.name for obj in self.object_list]\n")]),
    ("bug", CP, [("        id_map = {act.id: act.name for act in activity_list}\n", "        activity_list.sort(key=lambda act: act.name)\n        id_map = {act.id: act.name for act in activity_list}\n")]),
    ("bug", CP, [("        self.env = env\n", "        self.env = env\n        env.recording = False\n")]),
    ("bug", CP, [("        self.get_recorded_activity_df()\n        self.get_dependency_list()\n", "        self.env.run()\n        self.get_recorded_activity_df()\n        self.get_dependency_list()\n")]),
    ("bug", CP, [("        self.activity_list = activity_list\n", "        self.activity_list = activity_list\n        activity_list.extend(a for a in get_subprocesses(activity_list) if a not in activity_list)\n")]),
    ("bug", DS, [("        dependencies_openclsim = []\n", "        self.env.data_step.sort(key=lambda row: row[0])\n        dependencies_openclsim = []\n")]),
    ("bug", DS, [("        dependencies_openclsim = []\n", "        for row in self.env.data_step:\n            row[6].callbacks = None\n        dependencies_openclsim = []\n")]),
    ("bug", DS, [("        dependencies_openclsim = []\n", "        self.env.data_cause_effect = []\n        dependencies_openclsim = []\n")]),
    ("bug", DM, [("        self._main_activities = main_activities\n", "        self._main_activities = main_activities\n        for act in main_activities:\n            act.env = None\n")]),
    ("bug", SG, [("        self.dependency_list = self.__check_dependency_list(dependency_list)\n", "        dependency_list.sort()\n        self.dependency_list = self.__check_dependency_list(dependency_list)\n")]),
    ("bug", SG, [("        # check expected columns\n", "        recorded_activities_df.reset_index(drop=True, inplace=True)\n        # check expected columns\n")]),
    ("bug", L, [("    def log(self):\n", "    def log(self):\n        self.logbook = [e for e in self.logbook if e[\"Timestamp\"] is not None]\n")]),
    ("bug", L, [("    def log(self):\n", "    def log(self):\n        for e in self.logbook:\n            e[\"ObjectState\"] = dict(e[\"ObjectState\"])\n")]),
    ("same", V, [("    default_blockwidth = 10\n", "    default_blockwidth = 10\n    if isinstance(concepts, dict):\n        concepts = dict(concepts)\n        concepts.pop(\"__none__\", None)\n")]),
    ("same", V, [(TS, "    timestamps = []\n    logs = [o.log[\"Timestamp\"] for o in concepts]\n    for stamps in logs:\n        stamps.sort()\n")]),
    ("same", V, [("    if type(activities) == dict:\n        activities = [*activities.values()]\n", "    if type(activities) == dict:\n        activities = [*activities.values()]\n    if activities is not None:\n        activities = activities + []\n        activities += []\n")]),
    ("same", V, [("        id_map = id_map if id_map else {}\n    # the", "        id_map = dict(id_map) if id_map else {}\n        id_map.update({})\n    # the")]),
    ("same", SC, [("    for obj in simulation_objects:\n", "    todo = list(simulation_objects)\n    while todo:\n        obj = todo.pop(0)\n")]),
    ("same", SC, [("        df = get_log_dataframe(obj)\n", "        df = get_log_dataframe(obj)\n        df[\"plotted\"] = True\n")]),
    ("same", LD, [("    df = pd.DataFrame(simulation_object.log)", "    entries = simulation_object.log\n    for key in entries:\n        entries[key] = list(entries[key])\n    df = pd.DataFrame(simulation_object.log)")]),
    ("same", IO, [("    activity = [x for x in treelist]\n", "    activity = []\n    for x in treelist:\n        activity.append(x)\n")]),
    ("same", IO, [("    if isinstance(concepts, dict):\n        concepts = [*concepts.values()]\n\n    df = {", "    if isinstance(concepts, dict):\n        values = []\n        for value in concepts.values():\n            values.append(value)\n        concepts = values\n\n    df = {")]),
    ("same", CP, [("        self.activity_list = activity_list\n", "        self.activity_list = activity_list\n        self._cache = {}\n        self._cache[\"names\"] = [a.name for a in activity_list]\n")]),
    ("same", DS, [("        dependencies_openclsim = []\n", "        rows = list(self.env.data_step)\n        rows.sort(key=lambda row: row[0])\n        dependencies_openclsim = []\n")]),
    ("same", DM, [("        self._main_activities = main_activities\n", "        self._main_activities = list(main_activities)\n        self._main_activities.reverse()\n        self._main_activities.reverse()\n")]),
    ("same", SG, [("        self.dependency_list = self.__check_dependency_list(dependency_list)\n", "        self.dependency_list = self.__check_dependency_list(list(dependency_list))\n        self.dependency_list.sort(key=lambda x: 0)\n")]),
]
