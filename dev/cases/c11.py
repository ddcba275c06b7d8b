B = "model/base_activities.py"
WH = "model/while_activity.py"
H = "model/helpers.py"
COND = '''            if (
                repetitions >= self.max_iterations
                or static_condition_event.processed is True
                or self.parse_expression(self.condition_event).processed is True
            ):
                break
            else:
                repetitions += 1
'''
RESET = '''
                # Reset the sequential start events of the subprocesses
                self.register_subprocesses()

                # Re-add the activities to the simpy environment
                register_processes(self.sub_processes)
'''
STAT = "        static_condition_event = self.parse_expression(self.condition_event)\n"
REP = "        repetitions = 1\n"
CASES = [
    ("bug", WH, [("repetitions >= self.max_iterations", "repetitions > self.max_iterations")]),
    ("bug", WH, [(REP, "        repetitions = 0\n")]),
    ("bug", WH, [("                or static_condition_event.processed is True\n", "")]),
    ("bug", WH, [("                or self.parse_expression(self.condition_event).processed is True\n", "")]),
    ("bug", WH, [("static_condition_event.processed is True", "static_condition_event.triggered is True")]),
    ("bug", WH, [("                or static_condition_event.processed is True\n                or self", "                or static_condition_event.processed is True\n                and self")]),
    ("bug", WH, [("self.max_iterations = repetitions", "self.max_iterations = repetitions + 1")]),
    ("bug", WH, [("self.max_iterations = 1_000_000", "self.max_iterations = 100")]),
    ("bug", WH, [("                self.register_subprocesses()\n", "                pass\n")]),
    ("bug", WH, [("                register_processes(self.sub_processes)\n", "                pass\n")]),
    ("bug", WH, [("register_processes(self.sub_processes)", "register_processes(self.sub_processes[1:])")]),
    ("bug", WH, [("        while True:\n            self.start_sequence.succeed()\n", "        self.start_sequence.succeed()\n        while True:\n")]),
    ("bug", WH, [(STAT, ""), ("            self.start_sequence.succeed()\n", "            self.start_sequence.succeed()\n            static_condition_event = self.parse_expression(self.condition_event)\n")]),
    ("bug", WH, [("        while True:\n", "        while not static_condition_event.processed:\n")]),
    ("bug", WH, [(COND, COND.replace("            else:\n", "            else:\n                static_condition_event = self.parse_expression(self.condition_event)\n"))]),
    ("bug", WH, [("                yield stop_event\n", "                yield stop_event\n                if static_condition_event.processed:\n                    break\n")]),
    ("bug", WH, [("            {\"type\": \"activity\", \"state\": \"done\", \"name\": self.name}\n", "            {\"type\": \"activity\", \"state\": \"done\", \"name\": sub_processes[-1].name}\n")]),
    ("bug", WH, [("        self.condition_event = condition_event\n", "        self.condition_event = self.start_event or condition_event\n")]),
    ("bug", WH, [("                repetitions += 1\n", "                repetitions += len(self.sub_processes)\n")]),
    ("bug", WH, [("            for sub_process in self.sub_processes:\n                activity_log", "            for sub_process in self.sub_processes[:1 if repetitions == self.max_iterations else None]:\n                activity_log")]),
    ("bug", WH, [("static_condition_event.processed is True", "static_condition_event.processed is False")]),
    ("bug", WH, [("                self.register_subprocesses()\n", "                self.start_sequence = self.env.event()\n")]),
    ("same", WH, [(RESET, '''
                register_processes(self.sub_processes)
                self.register_subprocesses()
''')]),
    ("same", WH, [(COND + RESET, '''            if repetitions >= self.max_iterations:
                break
            if static_condition_event.processed:
                break
            if self.parse_expression(self.condition_event).processed:
                break
            repetitions += 1
            self.register_subprocesses()
            register_processes(self.sub_processes)
''')]),
    ("same", WH, [(REP, "        repetitions = 0\n"), (COND, COND.replace("            if (", "            repetitions += 1\n            if (").replace("                repetitions += 1\n", ""))]) if False else
    ("same", WH, [(REP, "        done = 0\n"), ("            if (\n                repetitions >= self.max_iterations", "            done += 1\n            if (\n                done >= self.max_iterations"), ("                repetitions += 1\n", "")]),
    ("same", WH, [(REP, "        left = self.max_iterations\n"), ("            if (\n                repetitions >= self.max_iterations", "            left -= 1\n            if (\n                left <= 0"), ("                repetitions += 1\n", "")]),
    ("same", WH, [(REP, ""), ("        while True:\n", "        for repetition in range(self.max_iterations):\n"), ("repetitions >= self.max_iterations", "repetition + 1 >= self.max_iterations"), ("                repetitions += 1\n", "")]),
    ("same", WH, [(COND, '''            fresh = self.parse_expression(self.condition_event)
            finished = static_condition_event.processed or fresh.processed
            if finished or not repetitions < self.max_iterations:
                break
            else:
                repetitions += 1
''')]),
    ("same", WH, [(COND + RESET, '''            if self._finished(repetitions, static_condition_event):
                break
            repetitions += 1
            self._prepare_pass()
'''), ("class ConditionProcessMixin:\n    \"\"\"Mixin for the condition process.\"\"\"\n", '''class ConditionProcessMixin:
    """Mixin for the condition process."""

    def _finished(self, repetitions, static_condition_event):
        return (
            repetitions >= self.max_iterations
            or static_condition_event.processed is True
            or self.parse_expression(self.condition_event).processed is True
        )

    def _prepare_pass(self):
        self.register_subprocesses()
        register_processes(self.sub_processes)
''')]),
    ("same", WH, [("        while True:\n            self.start_sequence.succeed()\n", "        finished = False\n        while not finished:\n            self.start_sequence.succeed()\n"), (COND + RESET, '''            finished = (
                repetitions >= self.max_iterations
                or static_condition_event.processed is True
                or self.parse_expression(self.condition_event).processed is True
            )
            if not finished:
                repetitions += 1
                self.register_subprocesses()
                register_processes(self.sub_processes)
''')]),
]
