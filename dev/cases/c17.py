D = "plugins/delay.py"
B = "model/base_activities.py"
F = 'activity_delay = (env.now - start_activity) * self.delay_factor'
W = '''        yield env.timeout(waiting, value=activity_log.id)
        activity_log.log_entry_v1(
            t=env.now,
            activity_id=activity_log.id,
            activity_state=core.LogState.WAIT_STOP,
            activity_label=activity_label,
        )
'''
CASES = [
    ("bug", D, [("delay_percentage / 100", "delay_percentage / 1000")]),
    ("bug", D, [("self, env, activity_log, activity, start_activity, *args", "self, env, activity_log, activity, start_activity, start_preprocessing, *args"),
                (F, F.replace("start_activity", "start_preprocessing"))]),
    ("bug", D, [(F, "activity_delay = env.now * self.delay_factor")]),
    ("bug", B, [(W, "        yield env.timeout(waiting, value=activity_log.id)\n")]),
    ("bug", D, [("if self.delay_factor is None", "if self.delay_factor is None or self.delay_factor < 0.01")]),
    ("bug", B, [("yield env.timeout(waiting, value=activity_log.id)", "yield env.timeout(round(waiting), value=activity_log.id)")]),
    ("bug", D, [("delay_percentage is not None and isinstance", "delay_percentage is None and isinstance")]),
    ("bug", D, [("delay_percentage is not None and isinstance(self, model.PluginActivity)", "delay_percentage is not None")]),
    ("bug", D, [("return activity.delay_processing(", "activity.delay_processing(")]),
    ("bug", B, [("activity_state=core.LogState.WAIT_STOP,\n            activity_label=activity_label", "activity_state=core.LogState.STOP,\n            activity_label=activity_label")]),
    ("bug", D, [(F, "activity_delay = (env.now - start_activity) / (1 - self.delay_factor)")]),
    ("same", D, [('''        self.delay_factor = (
            delay_percentage / 100 if delay_percentage is not None else None
        )''', '''        self.delay_percentage = delay_percentage'''), ("self.delay_factor is None", "self.delay_percentage is None"),
                 ("* self.delay_factor", "* self.delay_percentage / 100")]),
    ("same", D, [('''        return activity.delay_processing(
            env, activity_label, activity_log, activity_delay
        )''', '''        yield from activity.delay_processing(
            waiting=activity_delay, env=env, activity_label=activity_label, activity_log=activity_log
        )'''), ("return {}", "return")]),
    ("same", D, [(F, "elapsed = env.now - start_activity\n        activity_delay = elapsed * self.delay_factor")]),
    ("same", D, [('''        self.delay_factor = (
            delay_percentage / 100 if delay_percentage is not None else None
        )''', '''        self.delay_factor = None
        if delay_percentage is not None:
            self.delay_factor = 0.01 * delay_percentage''')]),
    ("same", D, [('''        if delay_percentage is not None and isinstance(self, model.PluginActivity):
''', '''        if delay_percentage is None:
            return
        if isinstance(self, model.PluginActivity):
''')]),
    ("same", B, [('''        activity_log.log_entry_v1(
            t=env.now,
            activity_id=activity_log.id,
            activity_state=core.LogState.WAIT_START,
            activity_label=activity_label,
        )
''', '''        def note(state):
            activity_log.log_entry_v1(
                t=env.now,
                activity_id=activity_log.id,
                activity_state=state,
                activity_label=activity_label,
            )

        note(core.LogState.WAIT_START)
'''), (W, '''        yield env.timeout(waiting, value=activity_log.id)
        note(core.LogState.WAIT_STOP)
''')]),
]

D = "plugins/delay.py"
BA = "model/base_activities.py"
CASES += [
    ("bug", D, [("(env.now - start_activity) * self.delay_factor", "(env.now - start_preprocessing) * self.delay_factor"), ("activity, start_activity, *args", "activity, start_preprocessing, start_activity, *args")]),
    ("bug", D, [("        if self.delay_factor is None:\n", "        if not self.delay_factor or self.delay_factor < 0.01:\n")]),
    ("bug", D, [("            delay_percentage / 100 if", "            delay_percentage // 100 if")]),
    ("bug", BA, [("        yield env.timeout(waiting, value=activity_log.id)\n        activity_log", "        yield env.timeout(round(waiting), value=activity_log.id)\n        activity_log")]),
    ("bug", BA, [('''            activity_state=core.LogState.WAIT_STOP,
            activity_label=activity_label,
        )


class GenericActivity''', '''            activity_state=core.LogState.STOP,
            activity_label=activity_label,
        )


class GenericActivity''')]),
    ("bug", BA, [('''    def delay_processing(self, env, activity_label, activity_log, waiting):
''', '''    def delay_processing(self, env, activity_label, activity_log, waiting):
        if waiting < 1:
            return
''')]),
    ("bug", D, [("delay_plugin, priority=3", "delay_plugin, priority=3") if False else ("        if delay_percentage is not None and isinstance", "        if delay_percentage and delay_percentage < 100 and isinstance")]),
    ("bug", "model/move_activity.py", [('args_data["start_activity"] = ', 'args_data["start_activity"] = start_time if True else ')]),
    ("bug", "model/basic_activity.py", [('args_data["start_activity"] = ', 'args_data["start_activity"] = args_data["start_preprocessing"] if True else ')]),
    ("same", D, [('''        activity_delay = (env.now - start_activity) * self.delay_factor
        activity_label = {"type": "plugin", "ref": "delay"}

        return activity.delay_processing(
            env, activity_label, activity_log, activity_delay
        )
''', '''        worked = env.now - start_activity
        return activity.delay_processing(
            env=env,
            activity_label={"type": "plugin", "ref": "delay"},
            activity_log=activity_log,
            waiting=self.delay_factor * worked,
        )
''')]),
    ("same", D, [('''        self.delay_factor = (
            delay_percentage / 100 if delay_percentage is not None else None
        )
''', '''        self.delay_factor = None
        if delay_percentage is not None:
            self.delay_factor = delay_percentage * 0.01 if False else delay_percentage / 100
''')]),
    ("same", BA, [('''        activity_log.log_entry_v1(
            t=env.now,
            activity_id=activity_log.id,
            activity_state=core.LogState.WAIT_START,
            activity_label=activity_label,
        )
        yield env.timeout(waiting, value=activity_log.id)
        activity_log.log_entry_v1(
            t=env.now,
            activity_id=activity_log.id,
            activity_state=core.LogState.WAIT_STOP,
            activity_label=activity_label,
        )
''', '''        entry = {"activity_id": activity_log.id, "activity_label": activity_label}
        activity_log.log_entry_v1(
            t=env.now, activity_state=core.LogState.WAIT_START, **entry
        )
        yield env.timeout(waiting, value=activity_log.id)
        activity_log.log_entry_v1(
            t=env.now, activity_state=core.LogState.WAIT_STOP, **entry
        )
''')]),
    ("same", D, [('''        if self.delay_factor is None:
            return {}

''', '''        if self.delay_factor is None:
            return iter(())

''')]),
]
