B = "model/base_activities.py"
PARSE = '''        start_event = (
            None
            if self.start_event is None
            else self.parse_expression(self.start_event)
        )

'''
PAR = '''        if hasattr(self, "start_event_parent"):
            yield self.parse_expression(self.start_event_parent)

'''
OWN = '''        start_time = env.now
        if start_event is not None:
            yield start_event

'''
MAIN = "        yield from self.main_process_function(activity_log=self, env=self.env)"
IF = "        if env.now > start_time:\n"
FOR = "            for log in additional_logs:\n"
W1 = '''            activity_log.log_entry_v1(
                t=start_time,
                activity_id=activity_log.id,
                activity_state=core.LogState.WAIT_START,
            )
'''
W2 = '''            activity_log.log_entry_v1(
                t=env.now,
                activity_id=activity_log.id,
                activity_state=core.LogState.WAIT_STOP,
            )
'''
CASES = [
    ("bug", B, [("        start_time = env.now\n        if start_event", "        if start_event"), (PAR, "        start_time = env.now\n" + PAR)]),
    ("bug", B, [(PAR, ""), (OWN, OWN + PAR)]),
    ("bug", B, [(OWN, ""), (PAR, OWN + PAR)]),
    ("bug", B, [(IF, "        if env.now >= start_time:\n")]),
    ("bug", B, [(IF, "        if env.now - start_time > 60:\n")]),
    ("bug", B, [(IF, "        if start_event is not None:\n")]),
    ("bug", B, [(W1, W1.replace("t=start_time", "t=env.now"))]),
    ("bug", B, [(W2, W2.replace("t=env.now", "t=start_time"))]),
    ("bug", B, [(FOR, "            for log in additional_logs[:1]:\n")]),
    ("bug", B, [(W2, "")]),
    ("bug", B, [("                log.log_entry_v1(\n                    t=env.now,", "                log.log_entry_v1(\n                    t=start_time,")]),
    ("bug", B, [("                log.log_entry_v1(\n                    t=start_time,\n                    activity_id=activity_log.id,\n                    activity_state=core.LogState.WAIT_START", "                log.log_entry_v1(\n                    t=start_time,\n                    activity_id=activity_log.id,\n                    activity_state=core.LogState.WAIT_STOP")]),
    ("bug", B, [("                    activity_id=activity_log.id,\n                    activity_state=core.LogState.WAIT_STOP", "                    activity_id=log.id,\n                    activity_state=core.LogState.WAIT_STOP")]),
    ("bug", B, [(PAR + OWN, '''        start_time = env.now
        events = [e for e in [getattr(self, "start_event_parent", None), self.start_event] if e is not None]
        if events:
            yield self.parse_expression(events)

''')]),
    ("bug", B, [("            yield start_event\n", "            if not start_event.triggered:\n                yield start_event\n            else:\n                return\n")]),
    ("bug", B, [(OWN, OWN.replace("            yield start_event\n", "            yield start_event | env.timeout(3600)\n"))]),
    ("bug", B, [(IF, "        if env.now > start_time and not additional_logs:\n")]),
    ("bug", B, [(PAR, PAR.replace("            yield self", "            if self.start_event is None:\n                yield self"))]),
    ("bug", B, [("additional_logs = getattr(self, \"additional_logs\", [])", "additional_logs = getattr(self, \"additional_log\", [])")]),
    ("same", B, [(PARSE, '''        start_event = None
        if self.start_event is not None:
            start_event = self.parse_expression(self.start_event)

''')]),
    ("same", B, [(IF, "        waited = env.now - start_time\n        if waited > 0:\n")]),
    ("same", B, [(IF, "        if start_time < env.now:\n")]),
    ("same", B, [(PAR, '''        parent = getattr(self, "start_event_parent", None)
        if parent is not None:
            yield self.parse_expression(parent)

''')]),
    ("same", B, [(W1, '''            for where, label in [(activity_log, None)]:
                where.log_entry_v1(
                    t=start_time,
                    activity_id=activity_log.id,
                    activity_state=core.LogState.WAIT_START,
                    activity_label=label,
                )
''')]),
    ("same", B, [(OWN, OWN.replace("        if start_event is not None:\n            yield start_event\n", "        if start_event is None:\n            pass\n        else:\n            yield start_event\n"))]),
    ("same", B, [(W1, ""), (W2, W1 + W2)]),
    ("same", B, [(IF, "        self._log_wait(activity_log, additional_logs, start_time, env)\n\n" + MAIN + "\n\n    def _log_wait(self, activity_log, additional_logs, start_time, env):\n" + IF), ("\n" + MAIN + "\n\n    def _request", "\n    def _request")]),
    ("same", B, [(MAIN, "        yield from self.main_process_function(activity_log=activity_log, env=env)")]),
]
