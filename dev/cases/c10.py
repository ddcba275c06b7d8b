B = "model/base_activities.py"
PA = "model/parallel_activity.py"
REG = '''        for i, sub_process in enumerate(self.sub_processes):
            sub_process.start_event_parent = self.start_parallel

            if hasattr(sub_process, "register_subprocesses"):
                sub_process.register_subprocesses()
'''
SUCC = "        self.start_parallel.succeed()\n"
PRE = "        yield from self.pre_process(args_data)\n"
LOGS = '''        activity_log.log_entry_v1(
            t=env.now,
            activity_id=activity_log.id,
            activity_state=core.LogState.START,
        )
'''
WAIT = '''            yield event_trigger
'''
CASES = [
    ("bug", B, [(REG, REG.replace("            sub_process.start_event_parent = self.start_parallel\n", "            if i == 0:\n                sub_process.start_event_parent = self.start_parallel\n            else:\n                sub_process.start_event_parent = {\"type\": \"activity\", \"state\": \"done\", \"name\": self.sub_processes[i - 1].name}\n"))]),
    ("bug", B, [(REG, REG.replace("            if hasattr(sub_process, \"register_subprocesses\"):\n                sub_process.register_subprocesses()\n", ""))]),
    ("bug", B, [(REG, REG.replace("            sub_process.start_event_parent = self.start_parallel\n", "            if sub_process.start_event is None:\n                sub_process.start_event_parent = self.start_parallel\n"))]),
    ("bug", B, [(REG, REG.replace("            if hasattr(sub_process, \"register_subprocesses\"):\n                sub_process", "            if hasattr(sub_process, \"start_sequence\"):\n                sub_process"))]),
    ("bug", B, [("        self.start_parallel = self.env.event()\n\n        for i", "        self.start_parallel = getattr(self, \"start_parallel\", None) or self.env.event()\n\n        for i")]),
    ("bug", B, [(REG, REG.replace("= self.start_parallel", "= self.env.event()"))]),
    ("bug", B, [(REG, REG.replace("enumerate(self.sub_processes)", "enumerate(self.sub_processes[1:])"))]),
    ("bug", B, [(REG, REG.replace("= self.start_parallel", "= self.start_event or self.start_parallel"))]),
    ("bug", PA, [("self.register_subprocesses = self.register_parallel_subprocesses", "self.register_subprocesses = self.register_sequential_subprocesses"), ("self.start_parallel.succeed()", "self.start_sequence.succeed()")]),
    ("bug", PA, [(SUCC, ""), (PRE, SUCC + PRE)]),
    ("bug", PA, [(SUCC, ""), ("        self.register_subprocesses()\n", "        self.register_subprocesses()\n" + SUCC)]),
    ("bug", PA, [("        while len(stop_events) > 0:", "        while len(stop_events) > 1:")]),
    ("bug", PA, [("        while len(stop_events) > 0:", "        if len(stop_events) > 0:")]),
    ("bug", PA, [("                if self.parse_expression(stop_events[i]).triggered is True:", "                if event_trigger.triggered is True:")]),
    ("bug", PA, [("                    stop_events.pop(i)\n", "                    stop_events.pop()\n")]),
    ("bug", PA, [("        while len(stop_events) > 0:", "        while len(stop_events) == len(self.sub_processes) and stop_events:")]),
    ("bug", PA, [("                if self.parse_expression(stop_events[i]).triggered is True:", "                if self.parse_expression({\"or\": stop_events[i:]}).triggered is True:")]),
    ("bug", PA, [("            stop_events.append(\n", "            if sub_process.start_event is None: stop_events.append(\n")]),
    ("bug", PA, [("                else:\n                    i += 1\n", "                else:\n                    stop_events.pop(i)\n")]),
    ("bug", B, [("                return self.env.all_of(\n                    [activity_item.main_process for activity_item in activity_]\n                )", "                return self.env.any_of(\n                    [activity_item.main_process for activity_item in activity_]\n                )")]),
    ("bug", B, [("        if hasattr(self, \"start_event_parent\"):\n            yield self", "        if hasattr(self, \"start_event_parent\") and not hasattr(self, \"sub_processes\"):\n            yield self")]),
    ("same", B, [(REG, '''        for sub_process in self.sub_processes:
            sub_process.start_event_parent = self.start_parallel
        for sub_process in self.sub_processes:
            if hasattr(sub_process, "register_subprocesses"):
                sub_process.register_subprocesses()
''')]),
    ("same", B, [("        self.start_parallel = self.env.event()\n\n        for i", "        signal = self.env.event()\n        self.start_parallel = signal\n\n        for i"), ("sub_process.start_event_parent = self.start_parallel", "sub_process.start_event_parent = signal")]),
    ("same", B, [(REG, REG.replace("            sub_process.start_event_parent = self.start_parallel\n\n", "") + "            sub_process.start_event_parent = self.start_parallel\n")]),
    ("same", B, [(REG, '''        for i in range(len(self.sub_processes)):
            self.sub_processes[i].start_event_parent = self.start_parallel
            if hasattr(self.sub_processes[i], "register_subprocesses"):
                self.sub_processes[i].register_subprocesses()
''')]),
    ("same", B, [(REG, '''        for sub_process in self.sub_processes:
            setattr(sub_process, "start_event_parent", self.start_parallel)
            if not hasattr(sub_process, "register_subprocesses"):
                continue
            sub_process.register_subprocesses()
''')]),
    ("same", PA, [(SUCC, ""), (LOGS, SUCC + LOGS)]),
    ("same", PA, [(SUCC, ""), ("        # wait until all stop events", SUCC + "        # wait until all stop events")]),
    ("same", PA, [("        while len(stop_events) > 0:", "        while len(stop_events):")]),
    ("same", PA, [("            i = 0\n            while i < len(stop_events):\n                if self.parse_expression(stop_events[i]).triggered is True:\n", "            i = 0\n            while i < len(stop_events):\n                event = self.parse_expression(stop_events[i])\n                if event.triggered:\n")]),
]
