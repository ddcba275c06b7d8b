B = "model/base_activities.py"
REG = '''        self.registry.setdefault("name", {}).setdefault(self.name, set()).add(self)
        self.registry.setdefault("id", {}).setdefault(self.id, set()).add(self)'''
SIG = '''        if hasattr(self, "start_sequence") and self.start_sequence.processed:
            self.start_sequence = self.env.event()
        if hasattr(self, "start_parallel") and self.start_parallel.processed:
            self.start_parallel = self.env.event()'''
RES = '''        if hasattr(self, "make_container_reservation"):
            self.make_container_reservation()'''
PROC = '''        self.main_process = self.env.process(
            self.delayed_process(activity_log=self, env=self.env)
        )'''
CASES = [
    ("bug", B, [('self.registry.setdefault("id", {}).setdefault(self.id, set()).add(self)',
                 'self.registry.setdefault("id", {})[self.id] = {self}')]),
    ("bug", B, [('self.registry.setdefault("name", {}).setdefault(self.name, set()).add(self)',
                 'self.registry.setdefault("name", {}).setdefault(self.id, set()).add(self)')]),
    ("bug", B, [('self.start_sequence.processed:', 'not self.start_sequence.triggered:')]),
    ("bug", B, [('if hasattr(self, "start_parallel") and self.start_parallel.processed:',
                 'if hasattr(self, "start_parallel"):')]),
    ("bug", B, [('        # replace the events\n        self.done_event = self.env.event()\n', '')]),
    ("bug", B, [('            self.delayed_process(activity_log=self, env=self.env)',
                 '            self.main_process_function(activity_log=self, env=self.env)')]),
    ("bug", B, [(RES, '''        if hasattr(self, "make_container_reservation") and not hasattr(self, "main_process"):
            self.make_container_reservation()''')]),
    ("bug", B, [(REG, REG + '\n        self.registry["name"] = {self.name: {self}}')]),
    ("bug", B, [(REG, '''        self.registry.setdefault("name", {}).setdefault(self.name, set()).add(self)
        if self.id not in self.registry.setdefault("id", {}):
            self.registry["id"][self.id] = {self}''')]),
    ("bug", B, [(PROC, PROC + "\n        self.env.process(self.delayed_process(activity_log=self, env=self.env))")]),
    ("same", B, [(REG, '''        for k, v in (("name", self.name), ("id", self.id)):
            if k not in self.registry:
                self.registry[k] = {}
            table = self.registry[k]
            if v not in table:
                table[v] = set()
            table[v].add(self)''')]),
    ("same", B, [(SIG, '''        for nm in ("start_sequence", "start_parallel"):
            ev = getattr(self, nm, None)
            if ev is not None and ev.processed:
                setattr(self, nm, self.env.event())''')]),
    ("same", B, [(PROC, '''        env = self.env
        proc = self.delayed_process(self, env)
        self.main_process = env.process(proc)''')]),
    ("same", B, [(RES, '''        reserve = getattr(self, "make_container_reservation", None)
        if reserve is not None:
            reserve()'''), (REG, '''        self._add_to_registry("name", self.name)
        self._add_to_registry("id", self.id)

    def _add_to_registry(self, table, key):
        entries = self.registry.setdefault(table, {})
        entries.setdefault(key, set()).add(self)''')]),
    ("same", B, [(SIG, '''        for nm in ("start_sequence", "start_parallel"):
            if not hasattr(self, nm) or not getattr(self, nm).processed:
                continue
            setattr(self, nm, self.env.event())''')]),
]

BA = "model/base_activities.py"
CASES += [
    ("bug", BA, [('''        self.registry.setdefault("name", {}).setdefault(self.name, set()).add(self)
''', '''        self.registry.setdefault("name", {})[self.name] = {self}
''')]),
    ("bug", BA, [('''        self.registry.setdefault("id", {}).setdefault(self.id, set()).add(self)
''', '''        self.registry.setdefault("id", {}).setdefault(self.name, set()).add(self)
''')]),
    ("bug", BA, [('''        self.registry.setdefault("name", {}).setdefault(self.name, set()).add(self)
''', '''        if not self.registry.get("name", {}).get(self.name):
            self.registry.setdefault("name", {}).setdefault(self.name, set()).add(self)
''')]),
    ("bug", BA, [('''        self.main_process = self.env.process(
            self.delayed_process(activity_log=self, env=self.env)
        )
''', '''        if getattr(self, "main_process", None) is None or self.main_process.processed:
            self.main_process = self.env.process(
                self.delayed_process(activity_log=self, env=self.env)
            )
''')]),
    ("bug", BA, [('''        self.main_process = self.env.process(
            self.delayed_process(activity_log=self, env=self.env)
        )
''', '''        self.main_process = self.env.process(
            self.main_process_function(activity_log=self, env=self.env)
            if self.start_event is None
            else self.delayed_process(activity_log=self, env=self.env)
        )
''')]),
    ("bug", BA, [('''        # replace the events
        self.done_event = self.env.event()
''', '''        # replace the events
        if self.done_event.triggered:
            self.done_event = self.env.event()
''')]),
    ("bug", BA, [('self.start_parallel.processed:\n            self.start_parallel', 'self.start_parallel.processed:\n            self.start_sequence')]),
    ("bug", BA, [('''        if hasattr(self, "start_parallel") and self.start_parallel.processed:
''', '''        elif hasattr(self, "start_parallel") and self.start_parallel.processed:
''')]),
    ("bug", BA, [('''        if hasattr(self, "make_container_reservation"):
            self.make_container_reservation()
''', '''        if hasattr(self, "make_container_reservation") and self.id not in self.registry.get("id", {}):
            self.make_container_reservation()
''')]),
    ("bug", BA, [('''        # add activity to the registry
''', '''        # add activity to the registry
        self.registry.clear()
''')]),
    ("bug", BA, [('''        yield from self.main_process_function(activity_log=self, env=self.env)
''', '''        yield self.env.process(self.main_process_function(activity_log=self, env=self.env))
        if self.env.now > start_time:
            yield from self.main_process_function(activity_log=self, env=self.env)
''')]),
    ("bug", BA, [('''        yield from self.main_process_function(activity_log=self, env=self.env)
''', '''        if start_event is None or start_event.ok:
            self.main_process_function(activity_log=self, env=self.env)
''')]),
    ("same", BA, [('''        self.registry.setdefault("name", {}).setdefault(self.name, set()).add(self)
        self.registry.setdefault("id", {}).setdefault(self.id, set()).add(self)
''', '''        for index, key in (("name", self.name), ("id", self.id)):
            self.registry.setdefault(index, {}).setdefault(key, set()).add(self)
''')]),
    ("same", BA, [('''        self.registry.setdefault("name", {}).setdefault(self.name, set()).add(self)
        self.registry.setdefault("id", {}).setdefault(self.id, set()).add(self)
''', '''        by_name = self.registry.setdefault("name", {})
        if self.name not in by_name:
            by_name[self.name] = set()
        by_name[self.name].add(self)
        by_id = self.registry.setdefault("id", {})
        if self.id not in by_id:
            by_id[self.id] = set()
        by_id[self.id].add(self)
''')]),
    ("same", BA, [('''        if hasattr(self, "start_sequence") and self.start_sequence.processed:
            self.start_sequence = self.env.event()
        if hasattr(self, "start_parallel") and self.start_parallel.processed:
            self.start_parallel = self.env.event()
''', '''        for name in ("start_sequence", "start_parallel"):
            signal = getattr(self, name, None)
            if signal is not None and signal.processed:
                setattr(self, name, self.env.event())
''')]),
    ("same", BA, [('''        self.main_process = self.env.process(
            self.delayed_process(activity_log=self, env=self.env)
        )
''', '''        process = self.delayed_process(self, self.env)
        self.main_process = self.env.process(process)
''')]),
    ("same", BA, [('''        # replace the events
        self.done_event = self.env.event()
        if hasattr(self, "start_sequence") and self.start_sequence.processed:
            self.start_sequence = self.env.event()
        if hasattr(self, "start_parallel") and self.start_parallel.processed:
            self.start_parallel = self.env.event()
''', '''        self._replace_events()
'''), ('''    def parse_expression(self''', '''    def _replace_events(self):
        self.done_event = self.env.event()
        if hasattr(self, "start_sequence") and self.start_sequence.processed:
            self.start_sequence = self.env.event()
        if hasattr(self, "start_parallel") and self.start_parallel.processed:
            self.start_parallel = self.env.event()

    def parse_expression(self''')]),
]
