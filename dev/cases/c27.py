B, M, P, BA, MO, S = ("model/base_activities.py", "core/movable.py", "core/processor.py", "model/basic_activity.py",
                      "model/move_activity.py", "model/shift_amount_activity.py")
D, W = "plugins/delay.py", "plugins/weather.py"
CASES = [
    ("bug", B, [("max(start - self.env.now, 0), value=self.id)", "max(start - self.env.now, 0))")]),
    ("bug", B, [("env.timeout(waiting, value=activity_log.id)", "env.timeout(waiting)")]),
    ("bug", BA, [("value=activity_log.id)", "value=activity_log.name)")]),
    ("bug", BA, [("env.timeout(self.duration, value=activity_log.id)", "env.timeout(self.duration, activity_log.activity_id)")]),
    ("bug", M, [("timeout(duration, value=self.activity_id)", "timeout(duration, value=self.id)")]),
    ("bug", M, [("timeout(duration, value=self.activity_id)", "timeout(duration, value=self.activity_id if duration else None)")]),
    ("bug", P, [("timeout(duration, value=self.activity_id)", "timeout(duration, value=destination.activity_id)")]),
    ("bug", MO, [("        self.mover.activity_id = activity_log.id\n", "")]),
    ("bug", MO, [("        self.mover.activity_id = activity_log.id\n", "        if self.mover.activity_id is None:\n            self.mover.activity_id = activity_log.id\n")]),
    ("bug", S, [("        self.processor.activity_id = activity_id\n", "")]),
    ("bug", S, [("        self.processor.activity_id = activity_id\n", "        self.destination.activity_id = activity_id\n")]),
    ("bug", D, [("            env, activity_label, activity_log, activity_delay\n", "            env, activity_label, activity.processor, activity_delay\n")]),
    ("bug", D, [("        return activity.delay_processing(\n            env, activity_label, activity_log, activity_delay\n        )", "        yield env.timeout(activity_delay)")]),
    ("bug", P, [("        assert isinstance(origin, HasContainer)\n        assert isinstance(destination, HasC", "        if self.activity_id is None:\n            yield self.env.timeout(0)\n        assert isinstance(origin, HasContainer)\n        assert isinstance(destination, HasC")]),
    ("same", BA, [("env.timeout(self.duration, value=activity_log.id)", "self.env.timeout(self.duration, self.id)")]),
    ("same", M, [("        yield self.env.timeout(duration, value=self.activity_id)", "        yield from self._sail(duration)"), ("    @property\n    def v(self):\n        \"\"\"return the vel", "    def _sail(self, duration):\n        yield self.env.timeout(duration, value=self.activity_id)\n\n    @property\n    def v(self):\n        \"\"\"return the vel")]),
    ("same", S, [("            self.processor.activity_id = activity_id\n", "") if False else ("        self.processor.activity_id = activity_id\n        self.origin.activity_id = activity_id\n", "        for obj in (self.processor, self.origin):\n            obj.activity_id = activity_id\n")]),
    ("same", BA, [("        yield env.timeout(self.duration, value=activity_log.id)\n", "        work = simpy.Timeout(env, self.duration, value=activity_log.id)\n        yield work\n"), ("import openclsim.core as core", "import simpy\n\nimport openclsim.core as core")]),
    ("same", D, [("        return activity.delay_processing(\n            env, activity_label, activity_log, activity_delay\n        )", "        yield from activity.delay_processing(\n            env, activity_label, activity_log, activity_delay\n        )")]),
]

SETM = "        self.mover.activity_id = activity_log.id\n"
REQM = "        yield from self._request_resource(self.requested_resources, self.mover.resource)\n"
CASES += [
    ("bug", MO, [(SETM, ""), (REQM, SETM + REQM)]),
    ("bug", MO, [(SETM, "        self.mover.activity_id = self.name\n")]),
    ("bug", MO, [(SETM, "        self.mover.activity_id = self.mover.id\n")]),
    ("bug", MO, [(SETM, "        if self.duration is None:\n            self.mover.activity_id = activity_log.id\n")]),
    ("bug", MO, [(SETM, "        if hasattr(self.mover, \"activity_id\") and not self.mover.activity_id:\n            self.mover.activity_id = activity_log.id\n")]),
    ("bug", M, [("        # Check out the time based on duration of sailing event\n", "        self.activity_id = self.activity_id or self.id\n        value = self.activity_id\n        self.activity_id = None\n        # Check out\n"), ("timeout(duration, value=self.activity_id)", "timeout(duration, value=self.activity_id)")]),
    ("bug", M, [("        yield self.env.timeout(duration, value=self.activity_id)", "        for part in range(2):\n            yield self.env.timeout(duration / 2, value=self.activity_id if part else None)")]),
    ("bug", S, [("        self.processor.activity_id = activity_id\n", "        self.processor.activity_id = self.origin.activity_id\n")]),
    ("bug", S, [("        self.processor.activity_id = activity_id\n", "        self.processor.activity_id = str(activity_id)[:8]\n")]),
    ("bug", P, [("timeout(duration, value=self.activity_id)", "timeout(duration, value=origin.activity_id if origin is not self else destination.activity_id)")]),
    ("bug", B, [("env.timeout(waiting, value=activity_log.id)", "env.timeout(waiting, value=self.id + \"_plugin\")")]),
    ("bug", B, [("env.timeout(waiting, value=activity_log.id)", "env.timeout(waiting, value=activity_label[\"ref\"])")]),
    ("bug", B, [("max(start - self.env.now, 0), value=self.id)", "max(start - self.env.now, 0), value=start_expr.get(\"id\"))")]),
    ("bug", BA, [("env.timeout(self.duration, value=activity_log.id)", "env.timeout(self.duration, value=getattr(self, \"ID\", None))")]),
    ("bug", BA, [("        yield env.timeout(self.duration, value=activity_log.id)\n", "        if self.duration > 3600:\n            yield env.timeout(self.duration - 3600)\n            yield env.timeout(3600, value=activity_log.id)\n        else:\n            yield env.timeout(self.duration, value=activity_log.id)\n")]),
    ("bug", W, [("            return activity.delay_processing(", "            yield env.timeout(0)\n            return activity.delay_processing(")] if False else [("    def pre_process(self, env, activity_log, activity, *args, **kwargs):\n", "    def pre_process(self, env, activity_log, activity, *args, **kwargs):\n        activity_log = activity.mover if hasattr(activity, \"mover\") else activity_log\n")]),
    ("same", MO, [(SETM, "        mover = self.mover\n        mover.activity_id = self.id\n")]),
    ("same", MO, [(SETM, ""), ("        start_mover = env.now\n", "        self._claim(activity_log)\n        start_mover = env.now\n"), ("    def main_process_function(", "    def _claim(self, activity_log):\n        self.mover.activity_id = activity_log.id\n\n    def main_process_function(")]),
    ("same", S, [("        self.processor.activity_id = activity_id\n        self.origin.activity_id = activity_id\n", "        for obj in (self.processor, self.origin):\n            obj.activity_id = activity_id\n")]),
    ("same", P, [("        yield self.env.timeout(duration, value=self.activity_id)\n", "        activity_id = self.activity_id\n        work = self.env.timeout(duration, activity_id)\n        yield work\n")]),
    ("same", BA, [("        yield env.timeout(self.duration, value=activity_log.id)\n", "        activity_id, duration = activity_log.id, self.duration\n        yield env.timeout(delay=duration, value=activity_id)\n")]),
    ("same", B, [("        yield env.timeout(waiting, value=activity_log.id)\n", "        kwargs = {\"delay\": waiting, \"value\": activity_log.id}\n        yield env.timeout(**kwargs)\n")]),
    ("same", M, [("        yield self.env.timeout(duration, value=self.activity_id)\n", "        yield self._sailing(duration)\n"), ("    @property\n    def v(self):\n        \"\"\"return", "    def _sailing(self, duration):\n        return self.env.timeout(duration, value=self.activity_id)\n\n    @property\n    def v(self):\n        \"\"\"return")]),
]
