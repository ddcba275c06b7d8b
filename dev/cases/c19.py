M = "core/movable.py"
A = "model/move_activity.py"
GEO = '''        # Set mover geometry to destination geometry
        self.geometry = shapely.geometry.shape(destination.geometry)

'''
TO = '''        yield self.env.timeout(duration, value=self.activity_id)

'''
DURN = '''        if duration is None:
            duration = self.compute_duration(self.geometry, destination.geometry)
'''
EO = '''        if engine_order is not None:
            self.engine_order = engine_order
'''
CHECK = '''        if destination is None:
            raise ValueError("Movable in OpenCLSim does not support empty destination")

'''
START = '''        self.log_entry_v1(
            self.env.now,
            self.activity_id,
            LogState.START,
        )

'''
STOP = START.replace("START", "STOP").rstrip() + "\n"
MV = '''        yield from self.mover.move(
            destination=self.destination,
            engine_order=self.engine_order,
            duration=self.duration,
        )
'''
CASES = [
    ("bug", M, [(GEO, ""), (TO, GEO + TO)]),
    ("bug", M, [("if duration is None:", "if not duration:")]),
    ("bug", M, [("self.compute_duration(self.geometry, destination.geometry)", "self.compute_duration(self.geometry, self.geometry)")]),
    ("bug", M, [(EO, ""), (TO, TO + EO)]),
    ("bug", M, [(EO, EO.replace("is not None", "is not None and duration is None").replace("self.engine_order = engine_order", "self.engine_order *= engine_order"))]),
    ("bug", M, [(GEO, '        if self.geometry != destination.geometry and duration is None:\n            self.geometry = shapely.geometry.shape(destination.geometry)\n\n')]),
    ("bug", M, [(CHECK, ""), (START, START + CHECK)]),
    ("bug", M, [(GEO, ""), (STOP, STOP + "\n" + GEO)]),
    ("bug", M, [("self.env.timeout(duration, value=self.activity_id)", "self.env.timeout(int(duration), value=self.activity_id)")]),
    ("bug", M, [(CHECK, CHECK.replace('raise ValueError("Movable in OpenCLSim does not support empty destination")', "return"))]),
    ("bug", A, [(MV, MV.replace("            duration=self.duration,\n", ""))]),
    ("bug", A, [("        self.mover.activity_id = activity_log.id\n", ""), (MV, MV + "        self.mover.activity_id = activity_log.id\n")]),
    ("bug", A, [(MV, MV.replace("self.duration", "self.duration or None"))]),
    ("bug", A, [("        self.duration = duration\n", "        self.duration = duration if show else None\n")]),
    ("bug", M, [(DURN, DURN + "        elif self.geometry == destination.geometry:\n            duration = 0\n")]),
    ("bug", M, [(DURN, DURN.replace("destination.geometry)", "destination.geometry, self.engine_order)"))]),
    ("same", M, [(DURN, "        if duration is not None:\n            travel = duration\n        else:\n            travel = self.compute_duration(destination=destination.geometry, origin=self.geometry)\n"), (TO, TO.replace("timeout(duration,", "timeout(travel,"))]),
    ("same", M, [(GEO, "        self._arrive(destination)\n"), (STOP, ""), ("    @property\n    def v(self):\n        \"\"\"return", "    def _arrive(self, there):\n" + GEO.replace("destination.", "there.") + STOP + "\n    @property\n    def v(self):\n        \"\"\"return")]),
    ("same", M, [(START, "        self._log_move(LogState.START)\n"), (STOP, "        self._log_move(LogState.STOP)\n"), ("    @property\n    def v(self):\n        \"\"\"return", '''    def _log_move(self, state):
        self.log_entry_v1(t=self.env.now, activity_id=self.activity_id, activity_state=state)

    @property
    def v(self):
        """return''')]),
    ("same", M, [(TO, "        travel = self.env.timeout(duration, value=self.activity_id)\n        yield travel\n")]),
    ("same", A, [(MV, "        options = dict(destination=self.destination, engine_order=self.engine_order, duration=self.duration)\n        yield from self.mover.move(**options)\n")]),
    ("same", A, [(MV, "        yield from self.mover.move(self.destination, self.duration, self.engine_order)\n")]),
    ("same", M, [(CHECK, ""), (EO, CHECK + EO)]),
    ("same", M, [(EO, ""), (START, START + EO)]),
    ("same", M, [(GEO, "        there = shapely.geometry.shape(destination.geometry)\n        self.geometry = there\n\n")]),
]

V = "core/movable.py"
A = "model/move_activity.py"
CASES += [
    ("bug", A, [("            duration=self.duration,\n        )\n\n        activity_log", "            duration=self.duration or None,\n        )\n\n        activity_log")]),
    ("bug", A, [("            destination=self.destination,\n            engine", "            destination=self.destination if not self.mover.is_at(self.destination) else self.mover,\n            engine")]),
    ("bug", A, [("        yield from self.mover.move(\n", "        if self.mover.geometry == self.destination.geometry:\n            return\n        yield from self.mover.move(\n")]),
    ("bug", V, [("        yield self.env.timeout(duration, value=self.activity_id)\n\n        # Set mover geometry to destination geometry\n        self.geometry = shapely.geometry.shape(destination.geometry)\n", "        self.geometry = shapely.geometry.shape(destination.geometry)\n        yield self.env.timeout(duration, value=self.activity_id)\n")]),
    ("bug", V, [("        if duration is None:\n            duration = self.comp", "        if not duration:\n            duration = self.comp")]),
    ("bug", V, [("        # Set mover geometry to destination geometry\n", "        if duration == 0:\n            return\n")]),
    ("bug", V, [("        yield self.env.timeout(duration, value=self.activity_id)\n\n        # Set", "        yield self.env.timeout(duration / 2, value=self.activity_id)\n        self.geometry = shapely.geometry.shape(destination.geometry)\n        yield self.env.timeout(duration / 2, value=self.activity_id)\n\n        # Set")]),
    ("bug", V, [("self.compute_duration(self.geometry, destination.geometry)\n", "self.compute_duration(destination.geometry, destination.geometry) or self.compute_duration(self.geometry, destination.geometry) * 2\n")]) if False else ("bug", V, [("            duration = self.compute_duration(self.geometry, destination.geometry)\n", "            duration = round(self.compute_duration(self.geometry, destination.geometry))\n")]),
    ("bug", V, [('''        if destination is None:
            raise ValueError("Movable in OpenCLSim does not support empty destination")
''', '''        if destination is None and duration is None:
            raise ValueError("Movable in OpenCLSim does not support empty destination")
''')]),
    ("bug", V, [('''        # Determine the sailing_duration
''', '''        # Determine the sailing_duration
        self.engine_order = 1
''')]),
    ("bug", A, [("        self.duration = duration\n        self.print", "        self.duration = duration if duration and duration > 0 else None\n        self.print")]),
    ("bug", A, [("        self.engine_order = engine_order\n", "        self.engine_order = min(engine_order, 1)\n")]),
    ("same", V, [('''        # Set mover geometry to destination geometry
        self.geometry = shapely.geometry.shape(destination.geometry)
''', '''        # Set mover geometry to destination geometry
        arrived_at = destination.geometry
        self.geometry = shapely.geometry.shape(arrived_at)
''')]),
    ("same", V, [('''        if duration is None:
            duration = self.compute_duration(self.geometry, destination.geometry)

        # Check out the time based on duration of sailing event
        yield self.env.timeout(duration, value=self.activity_id)
''', '''        sailing_duration = (
            self.compute_duration(self.geometry, destination.geometry)
            if duration is None
            else duration
        )

        # Check out the time based on duration of sailing event
        sailing = self.env.timeout(sailing_duration, value=self.activity_id)
        yield sailing
''')]),
    ("same", V, [('''        # Determine the sailing_duration
        if duration is None:
            duration = self.compute_duration(self.geometry, destination.geometry)
''', ""), ('''        # Log the start event
        self.log_entry_v1(
            self.env.now,
            self.activity_id,
            LogState.START,
        )

''', '''        if duration is None:
            duration = self.compute_duration(self.geometry, destination.geometry)

        # Log the start event
        self.log_entry_v1(
            self.env.now,
            self.activity_id,
            LogState.START,
        )

''')]),
    ("same", A, [('''        yield from self.mover.move(
            destination=self.destination,
            engine_order=self.engine_order,
            duration=self.duration,
        )
''', '''        yield from self.mover.move(self.destination, self.duration, self.engine_order)
''')]),
]
