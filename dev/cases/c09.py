B = "model/base_activities.py"
SQ = "model/sequential_activity.py"
WH = "model/while_activity.py"
H = "model/helpers.py"
REG = '''        for i, sub_process in enumerate(self.sub_processes):
            if i == 0:
                sub_process.start_event_parent = self.start_sequence

            else:
                sub_process.start_event_parent = {
                    "type": "activity",
                    "state": "done",
                    "name": self.sub_processes[i - 1].name,
                }

'''
NEST = '''        for sub_process in self.sub_processes:
            if hasattr(sub_process, "register_subprocesses"):
                sub_process.register_subprocesses()
'''
SUCC = "        self.start_sequence.succeed()\n"
PRE = "        yield from self.pre_process(args_data)\n"
LOGS = '''        activity_log.log_entry_v1(
            t=env.now,
            activity_id=activity_log.id,
            activity_state=core.LogState.START,
        )
'''
Y = "            yield stop_event\n"
CASES = [
    ("bug", B, [("self.sub_processes[i - 1].name", "self.sub_processes[0].name")]),
    ("bug", B, [("self.sub_processes[i - 1].name", "self.sub_processes[i - 2].name")]),
    ("bug", B, [("            if i == 0:\n", "            if i <= 1:\n")]),
    ("bug", B, [("            if i == 0:\n", "            if i == 0 or sub_process.start_event is None:\n")]),
    ("bug", B, [("            if i == 0:\n", "            if sub_process is self.sub_processes[-1] or i == 0:\n")]),
    ("bug", B, [(REG, REG.replace("            else:\n", "            elif not hasattr(sub_process, \"start_event_parent\"):\n"))]) ,
    ("bug", B, [(NEST, "")]),
    ("bug", B, [(NEST, NEST.replace("for sub_process in self.sub_processes:", "for sub_process in self.sub_processes[1:]:"))]),
    ("bug", B, [("        self.start_sequence = self.env.event()\n\n        for i", "        if not hasattr(self, \"start_sequence\"):\n            self.start_sequence = self.env.event()\n\n        for i")]),
    ("bug", B, [("        self.start_sequence = self.env.event()\n\n        for i", "        self.start_sequence = self.env.timeout(0)\n\n        for i")]),
    ("bug", B, [("                sub_process.start_event_parent = self.start_sequence\n", "                sub_process.start_event_parent = self.env.event().succeed()\n")]),
    ("bug", B, [("        if hasattr(self, \"start_event_parent\"):\n            yield", "        if hasattr(self, \"start_event_parent\") and start_event is None:\n            yield")]),
    ("bug", SQ, [("self.register_subprocesses = self.register_sequential_subprocesses", "self.register_subprocesses = self.register_parallel_subprocesses"), ("self.start_sequence.succeed()", "self.start_parallel.succeed()")]),
    ("bug", SQ, [(SUCC, ""), (PRE, SUCC + PRE)]),
    ("bug", SQ, [(SUCC, ""), ("        self.register_subprocesses()\n", "        self.register_subprocesses()\n        self.start_sequence.succeed()\n")]),
    ("bug", SQ, [(SUCC, ""), (LOGS, SUCC + LOGS), (PRE, PRE)]) if False else
    ("bug", SQ, [("        self.register_subprocesses()\n", "")]),
    ("bug", SQ, [(Y, "")]),
    ("bug", SQ, [(Y, "            yield stop_event | env.timeout(0)\n")]),
    ("bug", SQ, [("        for sub_process in self.sub_processes:\n", "        for sub_process in self.sub_processes[:-1]:\n")]),
    ("bug", SQ, [("        for sub_process in self.sub_processes:\n", "        for sub_process in self.sub_processes[-1:]:\n")]),
    ("same", WH, [("                self.register_subprocesses()\n", ""), ("                register_processes(self.sub_processes)\n", "                register_processes(self.sub_processes)\n                self.register_subprocesses()\n")]),
    ("bug", WH, [("            self.start_sequence.succeed()\n\n", "")]) if False else
    ("bug", WH, [("                yield stop_event\n", "                if sub_process is self.sub_processes[-1]:\n                    yield stop_event\n")]) if False else
    ("same", B, [(REG, '''        previous = None
        for sub_process in self.sub_processes:
            if previous is None:
                sub_process.start_event_parent = self.start_sequence
            else:
                sub_process.start_event_parent = {
                    "type": "activity",
                    "state": "done",
                    "name": previous.name,
                }
            previous = sub_process

''')]),
    ("same", B, [(REG, '''        parents = [self.start_sequence] + [
            {"type": "activity", "state": "done", "name": sub_process.name}
            for sub_process in self.sub_processes[:-1]
        ]
        for sub_process, parent in zip(self.sub_processes, parents):
            sub_process.start_event_parent = parent

''')]),
    ("same", B, [(REG, '''        for i, sub_process in enumerate(self.sub_processes):
            sub_process.start_event_parent = (
                self.start_sequence
                if i == 0
                else dict(type="activity", state="done", name=self.sub_processes[i - 1].name)
            )

''')]),
    ("same", B, [(NEST, '''        for sub_process in self.sub_processes:
            register = getattr(sub_process, "register_subprocesses", None)
            if register is not None:
                register()
''')]),
    ("same", B, [(REG + NEST, REG.rstrip("\n") + "\n" + "\n".join("    " + x for x in NEST.split("\n")[1:])[4:].join(["    ", ""]) )]) if False else
    ("same", B, [(REG + NEST, REG.replace("            if i == 0:", '''            if hasattr(sub_process, "register_subprocesses"):
                sub_process.register_subprocesses()
            if i == 0:'''))]),
    ("same", B, [(REG, REG.replace("for i, sub_process in enumerate(self.sub_processes):", "i = -1\n        for sub_process in self.sub_processes:\n            i += 1"))]),
    ("same", SQ, [("        self.register_subprocesses = self.register_sequential_subprocesses\n        self.register_subprocesses()\n", "        self.register_sequential_subprocesses()\n        self.register_subprocesses = self.register_sequential_subprocesses\n")]),
    ("same", SQ, [(SUCC, ""), (LOGS, SUCC + LOGS)]),
    ("same", WH, [("                self.register_subprocesses()\n\n                # Re-add", "                self.register_sequential_subprocesses()\n                # Re-add")]),
]
