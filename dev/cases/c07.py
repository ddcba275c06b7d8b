B = "model/base_activities.py"
BA = "model/basic_activity.py"
SQ = "model/sequential_activity.py"
PA = "model/parallel_activity.py"
WH = "model/while_activity.py"
MV = "model/move_activity.py"
SH = "model/shift_amount_activity.py"
MO = "core/movable.py"
PR = "core/processor.py"
START = '''        activity_log.log_entry_v1(
            t=env.now,
            activity_id=activity_log.id,
            activity_state=core.LogState.START,
        )
'''
STOP = START.replace("START", "STOP")
STOPB = '''        activity_log.log_entry_v1(
            t=env.now, activity_id=activity_log.id, activity_state=core.LogState.STOP
        )
'''
PRE = "        yield from self.pre_process(args_data)\n"
POST = "        yield from self.post_process(**args_data)"
SB = "        start_basic = env.now\n"
LOGSTART = '''        self.log_entry_v1(
            self.env.now,
            self.activity_id,
            LogState.START,
        )
'''
LOGSTOP = LOGSTART.replace("START", "STOP")
DUR = '''        # Determine the sailing_duration
        if duration is None:
            duration = self.compute_duration(self.geometry, destination.geometry)

'''
SEQEND = '''        activity_log.log_entry_v1(
            t=env.now,
            activity_id=activity_log.id,
            activity_state=core.LogState.STOP,
        )

'''
CASES = [
    # own entries
    ("bug", BA, [(STOPB, "")]),
    ("bug", BA, [(STOPB, STOPB.replace("t=env.now", "t=start_basic + self.duration").replace("core.LogState.STOP", "core.LogState.STOP"))]),
    ("bug", BA, [("            t=env.now, activity_id=activity_log.id, activity_state=core.LogState.STOP", "            t=env.now, activity_id=self.name, activity_state=core.LogState.STOP")]),
    ("bug", BA, [(PRE + "\n" + SB, SB + "\n" + PRE), (START, START.replace("t=env.now", "t=start_basic"))]),
    ("bug", BA, [(START, START.replace("t=env.now", "t=start_time"))]),
    ("bug", BA, [(STOPB, ""), (POST, POST + "\n" + STOPB)]),
    ("bug", BA, [("        if isinstance(self.additional_logs, list) and len(self.additional_logs) > 0:\n            for log_item in self.additional_logs:", "        if isinstance(self.additional_logs, list) and len(self.additional_logs) > 1:\n            for log_item in self.additional_logs:")]),
    ("bug", BA, [("            for log_item in self.additional_logs:", "            for log_item in self.additional_logs[:1]:")]),
    ("bug", BA, [("                    activity_state=core.LogState.STOP,\n                    activity_label", "                    activity_state=core.LogState.WAIT_STOP,\n                    activity_label")]),
    ("bug", BA, [("        yield env.timeout(self.duration, value=activity_log.id)\n", "        if self.duration > 0:\n            yield env.timeout(self.duration, value=activity_log.id)\n        else:\n            return\n")]),
    ("bug", BA, [(POST, "        yield env.timeout(0, value=activity_log.id)\n" + POST), (STOPB, STOPB.replace("STOP", "STOP") if False else ""), ("        args_data[\"start_preprocessing\"]", STOPB.replace("t=env.now", "t=start_basic") + "        args_data[\"start_preprocessing\"]")]),
    # several kinds
    ("bug", SQ, [(START, START.replace("t=env.now", "t=start_time"))]),
    ("bug", SQ, [(SEQEND, "        if self.sub_processes:\n" + "".join("    " + x + "\n" for x in SEQEND.strip("\n").split("\n")) + "\n")]),
    ("bug", PA, [(SEQEND + "        args_data[\"start_preprocessing\"] = start_time\n", "        args_data[\"start_preprocessing\"] = start_time\n"), (POST, POST + "\n" + SEQEND)]),
    ("bug", WH, [("                repetitions += 1\n", "                repetitions += 1\n                activity_log.log_entry_v1(t=env.now, activity_id=activity_log.id, activity_state=core.LogState.START)\n")]),
    ("bug", WH, [(PRE, ""), (START, START + "\n" + PRE)]),
    # move
    ("bug", MO, [(LOGSTOP, "        if duration > 0:\n" + "".join("    " + x + "\n" for x in LOGSTOP.strip("\n").split("\n")))]),
    ("bug", MO, [(LOGSTART, ""), ("        # Set mover geometry to destination geometry\n", LOGSTART + "        # Set mover geometry to destination geometry\n")]),
    ("bug", MO, [(LOGSTOP, ""), ("        # Check out the time based on duration of sailing event\n", "        # Check out the time based on duration of sailing event\n" + LOGSTOP.replace("self.env.now", "self.env.now + duration"))]),
    ("bug", MV, [("        self.mover.activity_id = activity_log.id\n", "        if getattr(self.mover, \"activity_id\", None) is None:\n            self.mover.activity_id = activity_log.id\n")]),
    ("bug", MV, [("        self.mover.activity_id = activity_log.id\n", "        self.mover.activity_id = self.name\n")]),
    ("bug", MV, [(START, ""), (PRE, START + PRE)]),
    ("bug", MV, [(PRE + "\n" + START, START + "\n" + PRE)]),
    # transfer
    ("bug", PR, [("for location in set([self, origin, destination]):", "for location in set([origin, destination]):")]),
    ("bug", PR, [("for location in set([self, origin, destination]):", "for location in [self, origin, destination]:")]),
    ("bug", PR, [("                activity_state=LogState.STOP,\n", "                activity_state=LogState.STOP if location is self else LogState.UNKNOWN,\n")]),
    ("bug", PR, [("        duration, amount = shiftamount_fcn(origin, destination)\n", ""), ("        # Log the process for all parts\n        for location in set([self, origin, destination]):\n            location.log_entry_v1(\n                t=location.env.now,\n                activity_id=self.activity_id,\n                activity_state=LogState.START,", "        duration, amount = shiftamount_fcn(origin, destination)\n        if amount == 0:\n            return\n        # Log the process for all parts\n        for location in set([self, origin, destination]):\n            location.log_entry_v1(\n                t=location.env.now,\n                activity_id=self.activity_id,\n                activity_state=LogState.START,")]),
    ("bug", PR, [("                activity_id=self.activity_id,\n                activity_state=LogState.START,", "                activity_id=location.activity_id,\n                activity_state=LogState.START,")]),
    ("bug", SH, [("        self.processor.activity_id = activity_id\n", "        self.destination.activity_id = activity_id\n")]),
    ("bug", SH, [(PRE, ""), (START, START + PRE)]),
    ("bug", SH, [("        start_shift = env.now\n        yield from self._shift_amount(\n            env,\n            amount,\n            activity_id=activity_log.id,\n        )\n\n" + STOP, STOP + "        start_shift = env.now\n        yield from self._shift_amount(\n            env,\n            amount,\n            activity_id=activity_log.id,\n        )\n")]),
    ("bug", SH, [(STOP, ""), ("        # release the unloader, self.destination and mover requests\n", STOP)]),
    ("bug", B, [("        yield from self.main_process_function(activity_log=self, env=self.env)", "        yield from self.main_process_function(activity_log=self.additional_logs[0] if hasattr(self, 'additional_logs') and self.additional_logs else self, env=self.env)")]),
    # edits that keep the behaviour
    ("same", BA, [(START, '''        def log(where, state, **extra):
            where.log_entry_v1(t=env.now, activity_id=activity_log.id, activity_state=state, **extra)

        log(activity_log, core.LogState.START)
'''), (STOPB, "        log(activity_log, core.LogState.STOP)\n")]),
    ("same", BA, [("        if isinstance(self.additional_logs, list) and len(self.additional_logs) > 0:\n            for log_item in self.additional_logs:", "        if self.additional_logs and isinstance(self.additional_logs, list):\n            for log_item in self.additional_logs:")]),
    ("same", BA, [(START, START.replace("t=env.now", "t=start_basic"))]),
    ("same", BA, [(STOPB, STOPB.replace("activity_log.id", "self.id").replace("activity_log.log", "self.log"))]),
    ("same", MO, [(LOGSTART, '''        start = self.env.now
        self.log_entry_v1(t=start, activity_id=self.activity_id, activity_state=LogState.START)
'''), (LOGSTOP, "        self.log_entry_v1(t=start + (self.env.now - start), activity_id=self.activity_id, activity_state=LogState.STOP)\n")]),
    ("same", MO, [(LOGSTART, ""), (DUR, DUR + LOGSTART)]),
    ("same", PR, [("for location in set([self, origin, destination]):", "for location in {self, origin, destination}:")]),
    ("same", PR, [("        # Log the process for all parts\n        for location in set([self, origin, destination]):\n            location.log_entry_v1(\n                t=location.env.now,\n                activity_id=self.activity_id,\n                activity_state=LogState.START,\n            )\n\n        duration, amount = shiftamount_fcn(origin, destination)\n", '''        involved = set([self, origin, destination])
        duration, amount = shiftamount_fcn(origin, destination)
        for location in involved:
            location.log_entry_v1(
                t=self.env.now,
                activity_id=self.activity_id,
                activity_state=LogState.START,
            )
'''), ("        for location in set([self, origin, destination]):\n            location.log_entry_v1(\n                t=location.env.now,\n                activity_id=self.activity_id,\n                activity_state=LogState.STOP,\n            )\n", '''        for location in involved:
            location.log_entry_v1(
                t=self.env.now,
                activity_id=self.activity_id,
                activity_state=LogState.STOP,
            )
''')]),
    ("same", PR, [("        for location in set([self, origin, destination]):\n            location.log_entry_v1(\n                t=location.env.now,\n                activity_id=self.activity_id,\n                activity_state=LogState.START,\n            )\n", "        self._log_parts([self, origin, destination], LogState.START)\n"), ("        for location in set([self, origin, destination]):\n            location.log_entry_v1(\n                t=location.env.now,\n                activity_id=self.activity_id,\n                activity_state=LogState.STOP,\n            )\n", "        self._log_parts([self, origin, destination], LogState.STOP)\n"), ("    def check_possible_shift(", '''    def _log_parts(self, parts, state):
        done = set()
        for part in parts:
            if part not in done:
                done.add(part)
                part.log_entry_v1(t=part.env.now, activity_id=self.activity_id, activity_state=state)

    def check_possible_shift(''')]),
    ("same", WH, [(START, "        self._log_own(activity_log, env, core.LogState.START)\n"), (STOP, "        self._log_own(activity_log, env, core.LogState.STOP)\n"), ("    def main_process_function(self, activity_log, env):\n", '''    def _log_own(self, activity_log, env, state):
        activity_log.log_entry_v1(t=env.now, activity_id=activity_log.id, activity_state=state)

    def main_process_function(self, activity_log, env):
''')]),
    ("same", SQ, [(START, ""), (PRE, PRE + START)]),
    ("same", MV, [("        start_mover = env.now\n        self.mover.activity_id = activity_log.id\n", "        self.mover.activity_id = activity_log.id\n        start_mover = env.now\n"), ('            "activity_log": activity_log,\n', '            "activity_log": self,\n')]),
]
