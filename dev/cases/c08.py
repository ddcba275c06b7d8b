SQ = "model/sequential_activity.py"
PA = "model/parallel_activity.py"
WH = "model/while_activity.py"
def sub(state, ind=12):
    p = " " * ind
    return (p + "activity_log.log_entry_v1(\n" + p + "    t=env.now,\n" + p + "    activity_id=activity_log.id,\n" + p + f"    activity_state=core.LogState.{state},\n"
            + p + "    activity_label={\n" + p + '        "type": "subprocess",\n' + p + '        "ref": sub_process.id,\n' + p + "    },\n" + p + ")\n")
S1, S2 = sub("START"), sub("STOP")
W1, W2 = sub("START", 16), sub("STOP", 16)
REF = '"ref": sub_process.id,'
Y = "            yield stop_event\n"
WY = "                yield stop_event\n"
EV = '''            stop_event = self.parse_expression(
                [
                    {
                        "type": "activity",
                        "state": "done",
                        "name": sub_process.name,
                    }
                ]
            )
'''
LOOP = "        for sub_process in self.sub_processes:\n"
PSTART = '''            activity_log.log_entry_v1(
                t=env.now,
                activity_id=activity_log.id,
                activity_state=core.LogState.START,
                activity_label={"type": "subprocess", "ref": sub_process.id},
            )
'''
PLOOP = '''            i = 0
            while i < len(stop_events):
                if self.parse_expression(stop_events[i]).triggered is True:
                    stop_events.pop(i)
                    activity_log.log_entry_v1(
                        t=env.now,
                        activity_id=activity_log.id,
                        activity_state=core.LogState.STOP,
                        activity_label={
                            "type": "subprocess",
                            "ref": subprocess_ids.pop(i),
                        },
                    )
                else:
                    i += 1
'''
FROM = "        for sub_process in self.sub_processes:\n            activity_log"
CASES = [
    ("bug", SQ, [(REF, '"ref": sub_process.name,')]),
    ("bug", SQ, [(S2, S2.replace("sub_process.id", "self.sub_processes[0].id"))]),
    ("bug", SQ, [(Y, ""), (S2, S2 + Y)]),
    ("bug", SQ, [(S1, ""), (Y, S1 + Y.replace("            yield", "            yield")), (Y, Y)]) if False else
    ("bug", SQ, [(S1, ""), (Y, Y + S1)]),
    ("bug", SQ, [(S2, "            if env.now > start_sequence:\n" + sub("STOP", 16))]),
    ("bug", SQ, [('"name": sub_process.name,', '"name": self.sub_processes[0].name,')]),
    ("bug", SQ, [('"name": sub_process.name,', '"name": self.sub_processes[-1].name,')]),
    ("bug", SQ, [(LOOP, "        for sub_process in self.sub_processes[1:]:\n")]),
    ("bug", SQ, [(LOOP, "        for sub_process in set(self.sub_processes):\n")]),
    ("bug", SQ, [(S2, S2.replace("t=env.now", "t=start_sequence"))]),
    ("bug", SQ, [(S1, S1.replace("t=env.now", "t=start_sequence"))]),
    ("bug", SQ, [(S1, S1.replace("activity_id=activity_log.id", "activity_id=sub_process.id"))]),
    ("bug", SQ, [(Y, "            if not sub_process.done_event.triggered:\n                yield sub_process.done_event | stop_event\n")]),
    ("bug", SQ, [(Y, "            if not stop_event.triggered:\n                yield stop_event\n            else:\n                continue\n")]),
    ("bug", SQ, [(S1, ""), (S2, ""), (Y, S1 + Y + S2.replace('"subprocess"', '"sub_process"'))]),
    ("bug", WH, [(REF, '"ref": self.id,')]),
    ("bug", WH, [(W1, "                if repetitions == 1:\n" + sub("START", 20))]),
    ("bug", WH, [(W2, "                if repetitions < self.max_iterations:\n" + sub("STOP", 20))]),
    ("bug", WH, [(WY, "")]),
    ("bug", WH, [(W2, ""), ("            # We check both the static", W2.replace("                ", "            ", 1).replace("\n    ", "\n") + "            # We check both the static")]),
    ("bug", PA, [("            subprocess_ids.append(sub_process.id)\n", "            subprocess_ids.insert(0, sub_process.id)\n")]),
    ("bug", PA, [("subprocess_ids.pop(i)", "subprocess_ids.pop()")]),
    ("bug", PA, [("subprocess_ids.pop(i)", "subprocess_ids.pop(0)")]),
    ("bug", PA, [("subprocess_ids.pop(i)", "subprocess_ids[i]")]),
    ("bug", PA, [("self.parse_expression(stop_events[i]).triggered is True", "event_trigger.triggered is True")]),
    ("bug", PA, [("self.parse_expression(stop_events[i]).triggered is True", "self.parse_expression(stop_events[0]).triggered is True")]),
    ("bug", PA, [("                    stop_events.pop(i)\n", "                    stop_events.pop()\n")]),
    ("bug", PA, [("                        t=env.now,\n", "                        t=start_time_parallel,\n")]),
    ("bug", PA, [(PSTART, ""), ("            yield event_trigger\n", "            yield event_trigger\n            for sub_process in self.sub_processes:\n" + PSTART.replace("            ", "                "))]),
    ("bug", PA, [(PSTART, "            if sub_process.start_event is None:\n" + "\n".join("    " + x for x in PSTART.strip("\n").split("\n")) + "\n")]),
    ("bug", PA, [('"or": [event for event in stop_events]', '"and": [event for event in stop_events]')]) ,
    ("bug", PA, [('"ref": sub_process.id}', '"ref": sub_process.name}'), ("subprocess_ids.append(sub_process.id)", "subprocess_ids.append(sub_process.name)")]),
    ("same", SQ, [(S1, "            log(core.LogState.START, sub_process)\n"), (S2, "            log(core.LogState.STOP, sub_process)\n"), ("        self.start_sequence.succeed()\n", '''        self.start_sequence.succeed()

        def log(state, process):
            activity_log.log_entry_v1(
                t=env.now,
                activity_id=activity_log.id,
                activity_state=state,
                activity_label={"type": "subprocess", "ref": process.id},
            )

''')]),
    ("same", SQ, [(LOOP, "        for index in range(len(self.sub_processes)):\n            sub_process = self.sub_processes[index]\n")]),
    ("same", SQ, [(EV, ""), (S1, EV + S1)]),
    ("same", SQ, [(EV, ""), (Y, "            yield self.parse_expression({\"type\": \"activity\", \"state\": \"done\", \"name\": sub_process.name})\n")]),
    ("same", SQ, [(S1, "            label = {\"type\": \"subprocess\", \"ref\": sub_process.id}\n" + S1.replace(S1[S1.index("activity_label={"):S1.rindex("},")+2], "activity_label=label,"))]),
    ("same", WH, [(W1, "                self._log_sub(activity_log, env, sub_process, core.LogState.START)\n"), (W2, "                self._log_sub(activity_log, env, sub_process, core.LogState.STOP)\n"), ("    def main_process_function(", '''    def _log_sub(self, activity_log, env, sub_process, state):
        activity_log.log_entry_v1(
            t=env.now,
            activity_id=activity_log.id,
            activity_state=state,
            activity_label={"type": "subprocess", "ref": sub_process.id},
        )

    def main_process_function(''')]),
    ("same", PA, [(PLOOP, '''            left = []
            left_ids = []
            for event, id_ in zip(stop_events, subprocess_ids):
                if self.parse_expression(event).triggered:
                    activity_log.log_entry_v1(
                        t=env.now,
                        activity_id=activity_log.id,
                        activity_state=core.LogState.STOP,
                        activity_label={
                            "type": "subprocess",
                            "ref": id_,
                        },
                    )
                else:
                    left.append(event)
                    left_ids.append(id_)
            stop_events = left
            subprocess_ids = left_ids
''')]),
    ("same", PA, [("            i = 0\n            while i < len(stop_events):\n                if self.parse_expression(stop_events[i]).triggered is True:\n                    stop_events.pop(i)\n", "            i = 0\n            while i < len(stop_events):\n                done = self.parse_expression(stop_events[i]).triggered\n                if done:\n                    del stop_events[i]\n")]),
    ("same", PA, [("        while len(stop_events) > 0:", "        while stop_events:"), ("[{\"or\": [event for event in stop_events]}]", "{\"or\": list(stop_events)}")]),
    ("same", PA, [('''            stop_events.append(
                {"type": "activity", "state": "done", "name": sub_process.name}
            )
            subprocess_ids.append(sub_process.id)
''', ""), ("        stop_events = []\n        subprocess_ids = []\n", '''        stop_events = [{"type": "activity", "state": "done", "name": process.name} for process in self.sub_processes]
        subprocess_ids = [process.id for process in self.sub_processes]
''')]),
]
