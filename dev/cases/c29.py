F = "critical_path/dependencies_from_simpy_step.py"
STEP = '''        t_before = copy.deepcopy(self.now)
        if len(self._queue):
            _, prio, e_id, event = self._queue[0]
            e_ids_before = set([t[2] for t in self._queue])
        else:
            _, prio, e_id, event = None, None, None, None
            e_ids_before = {}

        super().step()

        if len(self._queue):
            e_ids_new = list(set([t[2] for t in self._queue]) - e_ids_before)
        else:
            e_ids_new = []

        t_after = copy.deepcopy(self.now)

        self._monitor_cause_effect(e_id, e_ids_new)
        self._monitor_step(t_before, t_after, prio, e_id, event)
'''
NEW = "            e_ids_new = list(set([t[2] for t in self._queue]) - e_ids_before)\n"
MON = '''        if len(e_ids_new) > 0:
            for new_eid in e_ids_new:
                self.data_cause_effect.append((e_id_current, new_eid))
'''
def st(*edits):
    s = STEP
    for a, b in edits:
        assert a in s, a
        s = s.replace(a, b)
    return [(STEP, s)]
CASES = [
    ("bug", F, st(("        super().step()\n", "        super().step()\n        if event is None or not event.callbacks is None:\n            super().step()\n"))),
    ("bug", F, st(("        super().step()\n", "        try:\n            super().step()\n        except simpy.core.EmptySchedule:\n            return\n"))),
    ("bug", F, st(("        super().step()\n", "        if event is not None and event.callbacks:\n            super().step()\n        else:\n            self._queue.pop(0)\n"))),
    ("bug", F, st(("_, prio, e_id, event = self._queue[0]\n", "_, prio, e_id, event = self._queue[-1]\n"))),
    ("bug", F, st(("            e_ids_before = set([t[2] for t in self._queue])\n", "            e_ids_before = set([t[2] for t in self._queue[1:]])\n"))),
    ("bug", F, st(("        t_before = copy.deepcopy(self.now)\n", ""), ("        super().step()\n", "        super().step()\n        t_before = copy.deepcopy(self.now)\n"))),
    ("bug", F, st(("        t_after = copy.deepcopy(self.now)\n", "        t_after = t_before\n"))),
    ("bug", F, st(("        self._monitor_cause_effect(e_id, e_ids_new)\n        self._monitor_step(t_before, t_after, prio, e_id, event)\n", "        if not e_ids_new:\n            return\n        self._monitor_cause_effect(e_id, e_ids_new)\n        self._monitor_step(t_before, t_after, prio, e_id, event)\n"))),
    ("bug", F, st(("        self._monitor_step(t_before, t_after, prio, e_id, event)\n", "        if isinstance(event, simpy.events.Timeout):\n            self._monitor_step(t_before, t_after, prio, e_id, event)\n"))),
    ("bug", F, st(("            e_ids_new = list(set([t[2] for t in self._queue]) - e_ids_before)\n", "            e_ids_new = [self._queue[0][2]] if self._queue[0][2] not in e_ids_before else []\n"))),
    ("bug", F, [(MON, MON.replace("(e_id_current, new_eid)", "(new_eid, e_id_current)"))]),
    ("bug", F, [(MON, MON.replace("            for new_eid in e_ids_new:\n", "            for new_eid in e_ids_new[:1]:\n"))]),
    ("bug", F, [(MON, MON.replace("len(e_ids_new) > 0", "len(e_ids_new) > 1"))]),
    ("bug", F, [(MON, MON.replace("                self.data", "                if new_eid > e_id_current + 1:\n                    continue\n                self.data"))]),
    ("bug", F, [("        self.data_step.append((t0, t1, e_id, type(event), event.value, prio, event))", "        self.data_step.append((t1, t0, e_id, type(event), event.value, prio, event))")]),
    ("bug", F, [("        self.data_step.append((t0, t1, e_id, type(event), event.value, prio, event))", "        if t1 > t0:\n            self.data_step.append((t0, t1, e_id, type(event), event.value, prio, event))")]),
    ("bug", F, [("        self.data_step.append((t0, t1, e_id, type(event), event.value, prio, event))", "        self.data_step.append((t0, t1, e_id, type(event), event.value, prio, event))\n        event.callbacks = None")]),
    ("bug", F, st(("        super().step()\n", "        first = next(self._eid)\n        super().step()\n"))),
    ("bug", F, st(("            e_ids_before = set([t[2] for t in self._queue])\n", "            e_ids_before = set([t[2] for t in self._queue])\n            if prio == 0:\n                self.timeout(0)\n"))),
    ("bug", F, st((NEW, "            e_ids_new = list(e_ids_before - set([t[2] for t in self._queue]))\n"))),
    ("same", F, st((NEW, "            e_ids_new = [t[2] for t in self._queue if t[2] not in e_ids_before]\n"))),
    ("same", F, st((NEW, "            e_ids_new = sorted({t[2] for t in self._queue} - e_ids_before)\n"))),
    ("same", F, st((NEW, "            e_ids_new = list({t[2] for t in self._queue}.difference(e_ids_before))\n"))),
    ("same", F, st(("        t_before = copy.deepcopy(self.now)\n", "        t_before = self.now\n"), ("        t_after = copy.deepcopy(self.now)\n", "        t_after = self.now\n"))),
    ("same", F, [(MON, "        for new_eid in e_ids_new:\n            self.data_cause_effect.append((e_id_current, new_eid))\n")]),
    ("same", F, [(MON, "        self.data_cause_effect.extend((e_id_current, n) for n in e_ids_new)\n")]),
    ("same", F, st(("        self._monitor_cause_effect(e_id, e_ids_new)\n        self._monitor_step(t_before, t_after, prio, e_id, event)\n", "        self._monitor_step(t_before, t_after, prio, e_id, event)\n        self._monitor_cause_effect(e_id, e_ids_new)\n"))),
    ("same", F, st(("        if len(self._queue):\n            e_ids_new = list(set([t[2] for t in self._queue]) - e_ids_before)\n        else:\n            e_ids_new = []\n", "        e_ids_new = list(self._scheduled() - set(e_ids_before))\n"),) + [("    def _monitor_cause", "    def _scheduled(self):\n        return {t[2] for t in self._queue}\n\n    def _monitor_cause")]),
    ("same", F, st(("        if len(self._queue):\n            e_ids_new = list(set([t[2] for t in self._queue]) - e_ids_before)\n        else:\n            e_ids_new = []\n", ""), ("        self._monitor_cause_effect(e_id, e_ids_new)\n", "        for item in self._queue:\n            if item[2] not in e_ids_before:\n                self.data_cause_effect.append((e_id, item[2]))\n"))),
    ("same", F, st(("        if len(self._queue):\n            _,", "        pending = self._queue\n        if pending:\n            _,"))),
]

CASES += [
    ("bug", F, st(("        super().step()\n", "        while self._queue and self._queue[0][0] == self.now:\n            super().step()\n"))),
    ("bug", F, st(("        t_before = copy.deepcopy(self.now)\n", "        t_before = copy.deepcopy(self.now)\n        if t_before >= self.limit:\n            return\n"))),
    ("bug", F, st(("        self._monitor_step(t_before, t_after, prio, e_id, event)\n", "        self._monitor_step(t_before, t_after, prio, e_id, event)\n        if event is not None:\n            event.callbacks = None\n"))),
    ("bug", F, st(("        super().step()\n", "        if event is not None:\n            event.callbacks.append(self._seen)\n        super().step()\n"))),
    ("bug", F, st(("        super().step()\n", "        self._queue.sort()\n        self._now = self._queue[0][0]\n        super().step()\n"))),
    ("bug", F, st((NEW, "            e_ids_new = list(set([t[2] for t in self._queue if t[0] > self.now]) - e_ids_before)\n"))),
    ("bug", F, st((NEW, "            e_ids_new = list(set([t[2] for t in self._queue if isinstance(t[3], simpy.events.Timeout)]) - e_ids_before)\n"))),
    ("bug", F, st((NEW, "            e_ids_new = [t[2] for t in self._queue if t[2] > e_id and t[2] not in e_ids_before][:1]\n"))),
    ("bug", F, st((NEW, "            e_ids_new = [t[2] for t in self._queue if t[2] > e_id]\n"))),
    ("bug", F, [(MON, MON.replace("            for new_eid in e_ids_new:\n", "            for new_eid in e_ids_new:\n                if (e_id_current, new_eid) in self.data_cause_effect:\n                    return\n"))] if False else [(MON, MON.replace("(e_id_current, new_eid)", "(e_id_current or 0, max(e_ids_new))"))]),
    ("bug", F, [(MON, MON.replace("append((e_id_current, new_eid))", "append((self.data_step[-1][2] if self.data_step else e_id_current, new_eid))"))]),
    ("bug", F, [("        self.data_step.append((t0, t1, e_id, type(event), event.value, prio, event))", "        if e_id is not None and event.callbacks is None and event.value is not None:\n            self.data_step.append((t0, t1, e_id, type(event), event.value, prio, event))")]),
    ("bug", F, [("        self.data_step.append((t0, t1, e_id, type(event), event.value, prio, event))", "        self.data_step = [(t0, t1, e_id, type(event), event.value, prio, event)] + self.data_step[:100000]")]),
    ("bug", F, [("        self.data_cause_effect = []\n        self.data_step = []\n", "        self.data_cause_effect = []\n        self.data_step = []\n        self.timeout(0)\n")]),
    ("bug", F, [("    def step(self):\n", "    def schedule(self, event, priority=1, delay=0):\n        super().schedule(event, priority, round(delay, 6))\n\n    def step(self):\n")]),
    ("bug", F, [("    def step(self):\n", "    def run(self, until=None):\n        if until is not None:\n            until = int(until)\n        return super().run(until)\n\n    def step(self):\n")]),
    ("same", F, st(("            e_ids_before = set([t[2] for t in self._queue])\n", "            e_ids_before = self._scheduled()\n"), (NEW, "            e_ids_new = list(self._scheduled() - e_ids_before)\n")) + [("    def _monitor_cause_effect(", "    def _scheduled(self):\n        return {entry[2] for entry in self._queue}\n\n    def _monitor_cause_effect(")]),
    ("same", F, st(("        if len(self._queue):\n            _, prio, e_id, event = self._queue[0]\n", "        if self._queue:\n            first = self._queue[0]\n            prio, e_id, event = first[1], first[2], first[3]\n"))),
    ("same", F, st(("        if len(self._queue):\n" + NEW + "        else:\n            e_ids_new = []\n", "        e_ids_new = []\n        for _, _, new_id, _ in self._queue:\n            if new_id not in e_ids_before:\n                e_ids_new.append(new_id)\n"))),
    ("same", F, [(MON, "        pairs = [(e_id_current, new_eid) for new_eid in e_ids_new]\n        self.data_cause_effect += pairs\n")]),
    ("same", F, [("        self.data_step.append((t0, t1, e_id, type(event), event.value, prio, event))", "        record = (t0, t1, e_id, type(event), event.value, prio, event)\n        self.data_step.append(record)")]),
    ("same", F, st(("        t_before = copy.deepcopy(self.now)\n", "        t_before = float(self.now) if False else self.now\n"))) if False else ("same", F, st(("        t_after = copy.deepcopy(self.now)\n\n        self._monitor_cause_effect(e_id, e_ids_new)\n        self._monitor_step(t_before, t_after, prio, e_id, event)\n", "        self._monitor_cause_effect(e_id_current=e_id, e_ids_new=e_ids_new)\n        self._monitor_step(t0=t_before, t1=self.now, prio=prio, e_id=e_id, event=event)\n"))),
]
CASES += [
    ("same", F, [("    def step(self):\n", "    def schedule(self, event, priority=1, delay=0):\n        \"\"\"Schedule as usual.\"\"\"\n        return super().schedule(event, priority, delay)\n\n    def step(self):\n")]),
    ("same", F, [("    def step(self):\n", "    def run(self, until=None):\n        return super().run(until=until)\n\n    def step(self):\n")]),
    ("bug", F, [("    def step(self):\n", "    def run(self, until=None):\n        if not self._queue:\n            return None\n        return super().run(until=until)\n\n    def step(self):\n")]),
]

F29 = "critical_path/dependencies_from_simpy_step.py"
STEP29 = '''        if len(self._queue):
            _, prio, e_id, event = self._queue[0]
            e_ids_before = set([t[2] for t in self._queue])
        else:
            _, prio, e_id, event = None, None, None, None
            e_ids_before = {}

        super().step()

        if len(self._queue):
            e_ids_new = list(set([t[2] for t in self._queue]) - e_ids_before)
        else:
            e_ids_new = []

        t_after = copy.deepcopy(self.now)

        self._monitor_cause_effect(e_id, e_ids_new)
        self._monitor_step(t_before, t_after, prio, e_id, event)
'''
MCE29 = '''        if len(e_ids_new) > 0:
            for new_eid in e_ids_new:
                self.data_cause_effect.append((e_id_current, new_eid))
'''
CASES += [
    ("bug", F29, [(STEP29, STEP29.replace("self._monitor_cause_effect(e_id, e_ids_new)", "self._monitor_cause_effect(e_id, e_ids_new[:1])"))]),
    ("bug", F29, [(STEP29, STEP29.replace("self._queue[0]", "self._queue[-1]"))]),
    ("bug", F29, [(STEP29, STEP29.replace("        super().step()\n", "").replace("        t_after =", "        super().step()\n        t_after ="))]),
    ("bug", F29, [(STEP29, STEP29.replace("e_ids_before = set([t[2] for t in self._queue])", "e_ids_before = set([t[2] for t in self._queue[1:]])"))]),
    ("bug", F29, [(STEP29, STEP29.replace("- e_ids_before)", "- e_ids_before - {e_id + 1})"))]),
    ("bug", F29, [(STEP29, STEP29.replace("set([t[2] for t in self._queue]) - e_ids_before", "set([t[2] for t in self._queue if t[0] > self.now]) - e_ids_before"))]),
    ("bug", F29, [(STEP29, STEP29.replace("set([t[2] for t in self._queue]) - e_ids_before", "set([t[2] for t in self._queue if t[1] > 0]) - e_ids_before"))]),
    ("bug", F29, [(STEP29, STEP29.replace("        self._monitor_step(t_before", "        if t_after > t_before:\n            self._monitor_step(t_before"))]),
    ("bug", F29, [(STEP29, STEP29.replace("        self._monitor_cause_effect(e_id", "        if isinstance(event, simpy.events.Timeout):\n            self._monitor_cause_effect(e_id"))]),
    ("bug", F29, [(MCE29, MCE29.replace("len(e_ids_new) > 0", "len(e_ids_new) > 1"))]),
    ("bug", F29, [(MCE29, MCE29.replace("(e_id_current, new_eid)", "(new_eid, e_id_current)"))]),
    ("bug", F29, [(MCE29, MCE29.replace("self.data_cause_effect.append((e_id_current, new_eid))", "self.data_cause_effect.append((e_id_current, new_eid))\n                break"))]),
    ("same", F29, [(STEP29, '''        prio, e_id, event, e_ids_before = None, None, None, set()
        if self._queue:
            _, prio, e_id, event = self._queue[0]
            e_ids_before = {item[2] for item in self._queue}

        super().step()

        e_ids_new = [item[2] for item in self._queue if item[2] not in e_ids_before]
        t_after = self.now

        self._monitor_cause_effect(e_id, e_ids_new)
        self._monitor_step(t_before, t_after, prio, e_id, event)
''')]),
    ("same", F29, [(STEP29, STEP29.replace("set([t[2] for t in self._queue])", "{t[2] for t in self._queue}"))]),
    ("same", F29, [(STEP29, STEP29.replace("set([t[2] for t in self._queue])", "self._queued_ids()")), ("    def _monitor_step(self, t0", '''    def _queued_ids(self):
        """Ids of the events in the queue."""
        return {e_id for _, _, e_id, _ in self._queue}

    def _monitor_step(self, t0''')]),
    ("same", F29, [(STEP29, STEP29.replace('''        self._monitor_cause_effect(e_id, e_ids_new)
        self._monitor_step(t_before, t_after, prio, e_id, event)
''', '''        self._monitor_step(t_before, t_after, prio, e_id, event)
        self._monitor_cause_effect(e_id, e_ids_new)
'''))]),
    ("same", F29, [(MCE29, '''        for new_eid in e_ids_new:
            self.data_cause_effect.append((e_id_current, new_eid))
''')]),
    ("same", F29, [(MCE29, '''        self.data_cause_effect.extend(
            (e_id_current, new_eid) for new_eid in e_ids_new
        )
''')]),
    ("same", F29, [(MCE29, '''        self.data_cause_effect += [(e_id_current, new_eid) for new_eid in e_ids_new]
''')]),
]
