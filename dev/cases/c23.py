LOC, CON, LG = "core/locatable.py", "core/container.py", "core/log.py"
N = "        if self.node is not None:\n            state[\"node\"] = self.node\n"
G = 'state.update({"geometry": self.geometry})'
C1 = 'state.update({"container level": self.container.get_level()})'
SUP = '        state = {}\n        if hasattr(super(), "get_state"):\n            state = super().get_state()\n'
MC = '''                "container level": {
                    container: self.container.get_level(id_=container)
                    for container in self.container.container_list
                }
'''
LOCG = SUP + '\n        state.update({"geometry": self.geometry})\n'
CASES = [
    ("bug", LOC, [(N, '        if self.node:\n            state["node"] = self.node\n')]),
    ("bug", LOC, [(N, '        state["node"] = self.node\n')]),
    ("bug", LOC, [(LOCG, '        state = {}\n        state.update({"geometry": self.geometry})\n')]),
    ("bug", CON, [(SUP + "\n        state.update({\"container level\": self.container.get_level()})", "        state = {\"container level\": self.container.get_level()}")]),
    ("bug", CON, [(MC, MC.replace("id_=container", "\"default\""))]),
    ("bug", CON, [(MC, '                "container level": self.container.get_level()\n')]),
    ("bug", CON, [(MC, MC.replace("self.container.container_list", "[i[\"id\"] for i in self.container.items]"))]),
    ("bug", LG, [("        state = {}\n        if hasattr(super(), \"get_state\"):\n            state = super().get_state()\n        return state", "        return {}")]),
    ("bug", LOC, [(G, "self._state = state\n        state.update({\"geometry\": self.geometry})")]),
    ("bug", LOC, [(LOCG, '        if not hasattr(self, "_state"):\n            self._state = {}\n        state = self._state\n        state.update({"geometry": self.geometry})\n')]),
    ("bug", LOC, [(G, 'state.update({"geometry": self.geometry.centroid})')]),
    ("bug", CON, [(C1, 'state.setdefault("container level", self.container.get_capacity())')]),
    ("bug", CON, [(MC, MC.replace("self.container.get_level(id_=container)", "self.container.get_level(id_=container + '_reservations')"))]),
    ("same", LOC, [(G, 'state["geometry"] = self.geometry')]),
    ("same", LOC, [(N + "\n        return state", "        if self.node is None:\n            return state\n        return {**state, \"node\": self.node}")]),
    ("same", CON, [(C1, 'level = self.container.get_level("default")\n        state["container level"] = level')]),
    ("same", CON, [(MC, '                "container level": dict(\n                    (c, self.container.get_level(c)) for c in self.container.container_list\n                )\n')]),
    ("same", CON, [(SUP, '        state = super().get_state() if hasattr(super(), "get_state") else {}\n')]),
    ("same", CON, [(SUP, '        get = getattr(super(), "get_state", dict)\n        state = get()\n')]),
    ("same", CON, [("        state.update(\n            {\n" + MC + "            }\n        )\n", "        levels = {}\n        for c in self.container.container_list:\n            levels[c] = self.container.get_level(c)\n        state[\"container level\"] = levels\n")]),
]

MV = "core/movable.py"
SELFSTATE = 'state.update({"geometry": self.geometry})'
MS = "        state.update(\n            {\n" + MC + "            }\n        )\n"
OS = "        object_state = self.get_state()\n"
CASES += [
    # the node part shadowed / stale snapshots
    ("bug", LOC, [(N, '        if self.node is not None:\n            state.setdefault("geometry", self.node)\n            state["node"] = str(self.node)\n')]),
    ("bug", LOC, [(G, 'state.update({"geometry": getattr(self, "_initial_geometry", self.geometry)})')]),
    ("bug", LOC, [("        self.geometry = geometry\n", "        self.geometry = geometry\n        self._state = {\"geometry\": geometry}\n"), (G, "state.update(self._state)")]),
    ("bug", LG, [(OS, '        if self.logbook and self.logbook[-1]["Timestamp"].timestamp() == t:\n            object_state = self.logbook[-1]["ObjectState"]\n        else:\n            object_state = self.get_state()\n')]),
    ("bug", LG, [(OS, '        self._state = getattr(self, "_state", {})\n        self._state.update(self.get_state())\n        object_state = self._state\n')]),
    ("bug", CON, [(MS, '        levels = self.__dict__.setdefault("_levels", {})\n        for c in self.container.container_list:\n            levels[c] = self.container.get_level(c)\n        state.update({"container level": levels})\n')]),
    ("bug", CON, [(MS, '        state.update({"container level": self.container.items})\n')]),
    ("bug", CON, [(MC, MC.replace("in self.container.container_list\n", "in self.container.container_list\n                    if self.container.get_level(id_=container) > 0\n"))]),
    ("bug", CON, [(C1, 'if self.container.container_list:\n            state.update({"container level": self.container.get_level() / self.container.get_capacity()})')]),
    ("bug", CON, [(SUP + "\n        " + C1, '        state = {"container level": self.container.get_level()}\n        if hasattr(super(), "get_state") and not isinstance(self, Log):\n            state.update(super().get_state())\n')]),
    ("bug", LG, [(OS, '        object_state = Log.get_state(self)\n')]),
    ("bug", CON, [(MS, '        state["container level"] = {}\n        for c in self.container.container_list[:-1]:\n            state["container level"][c] = self.container.get_level(c)\n')]),
    ("bug", LOC, [("    def get_state(self):\n" + SUP, "    def get_state(self, state={}):\n        if hasattr(super(), \"get_state\"):\n            state.update(super().get_state())\n")]),
    ("bug", CON, [(C1, 'if state.get("container level") is None and self.container.get_level() > 0:\n            state.update({"container level": self.container.get_level()})')]),
    ("bug", LG, [('            object_state.update(additional_state)\n', '            object_state = dict(additional_state)\n')]),
    ("same", LOC, [(LOCG, '        inherited = getattr(super(), "get_state", None)\n        state = dict(inherited()) if inherited is not None else {}\n        state["geometry"] = self.geometry\n')]),
    ("same", LOC, [(LOCG + N, '        state = {}\n        if hasattr(super(), "get_state"):\n            state.update(super().get_state())\n        state.update(self._location_state())\n'), ("    def is_at(", "    def _location_state(self):\n        located = {\"geometry\": self.geometry}\n        if self.node is not None:\n            located[\"node\"] = self.node\n        return located\n\n    def is_at(")]),
    ("same", LOC, [(N + "\n        return state", "        node = self.node\n        if not node is None:\n            state.update(node=node)\n\n        return state")]),
    ("same", CON, [(MS, '        ids = self.container.container_list\n        levels = dict(zip(ids, [self.container.get_level(id_=c) for c in ids]))\n        state.update({"container level": levels})\n')]),
    ("same", CON, [(MS, '        state["container level"] = self._levels()\n'), ("    def __init__(self, initials, store", "    def _levels(self):\n        return {c: self.container.get_level(id_=c) for c in self.container.container_list}\n\n    def __init__(self, initials, store")]),
    ("same", LG, [(OS, '        object_state = dict(self.get_state())\n')]),
    ("same", LG, [(OS + '        if additional_state:\n            object_state.update(additional_state)\n', '        object_state = {**self.get_state(), **(additional_state or {})}\n')]),
    ("same", CON, [("        state.update({\"container level\": self.container.get_level()})\n        return state", "        return {**state, \"container level\": self.container.get_level()}")]),
]
