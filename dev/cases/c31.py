S = "model/single_run_process.py"
RR = "    if requested_resources is None:\n        requested_resources = {}\n"
SE = "    if stop_event is None:\n        stop_event = []\n"
SE2 = "    if stop_event == []:\n        stop_event = [\n"
L = '            phase="loading",\n            name=f"{name} loading",\n            processor=loader,\n            origin=origin,\n            destination=mover,\n'
U = '            phase="unloading",\n            name=f"{name} unloading",\n            processor=unloader,\n            origin=mover,\n            destination=destination,\n'
M1 = '            name=f"{name} sailing empty",\n            mover=mover,\n            destination=origin,\n'
M2 = '            name=f"{name} sailing filled",\n            mover=mover,\n            destination=destination,\n'
W = "        condition_event=stop_event,\n        start_event=start_event,\n"
MA = "        MoveActivity(\n            env=env,\n            registry=registry,\n            requested_resources=requested_resources,\n"
SA = MA.replace("MoveActivity", "ShiftAmountActivity")
CASES = [
    ("bug", S, [(L, L.replace("processor=loader", "processor=unloader"))]),
    ("bug", S, [(U, U.replace("processor=unloader", "processor=mover"))]),
    ("bug", S, [(L, L.replace("origin=origin,\n            destination=mover", "origin=mover,\n            destination=origin"))]),
    ("bug", S, [(M1, M1.replace("destination=origin", "destination=destination")), (M2, M2.replace("destination=destination", "destination=origin"))]),
    ("bug", S, [(M2, M2.replace("mover=mover", "mover=unloader"))]),
    ("bug", S, [('"concept": origin, "state": "empty"', '"concept": origin, "state": "full"')]),
    ("bug", S, [('"or": [', '"and": [')]),
    ("bug", S, [('"concept": destination', '"concept": mover')]),
    ("bug", S, [("        sub_processes=single_run,\n", "        sub_processes=single_run[::-1],\n")]),
    ("bug", S, [("        sub_processes=single_run,\n", "        sub_processes=single_run[1:],\n")]),
    ("bug", S, [(W, W.replace("        start_event=start_event,\n", ""))]),
    ("bug", S, [(W, W.replace("        start_event=start_event,\n", "")), (M1, M1 + "            start_event=start_event,\n")]),
    ("bug", S, [(RR, "")]),
    ("bug", S, [(RR, ""), (L, L.replace("phase", "phase")), (MA + M1, MA.replace("=requested_resources,", "=requested_resources or {},") + M1)]),
    ("bug", S, [(RR, "    requested_resources = {}\n")]),
    ("bug", S, [(RR, "    requested_resources = dict(requested_resources or {})\n")]),
    ("bug", S, [(RR, "    if not requested_resources:\n        requested_resources = {}\n")]),
    ("bug", S, [(SE, "")]),
    ("bug", S, [(SE2, SE2.replace("if stop_event == []", "if stop_event is None"))]),
    ("bug", S, [(SE2, SE2.replace("if stop_event == []", "if True"))]),
    ("bug", S, [('phase="unloading"', 'phase="loading"')]),
    ("bug", S, [("        registry=registry,\n        sub", "        registry={},\n        sub")]),
    ("bug", S, [(M2, M2.replace("            mover=mover,\n", "            mover=mover,\n            start_event=stop_event,\n"))]),
    ("bug", S, [("return single_run, while_activity", "return single_run[:2], while_activity")]),
    ("bug", S, [(RR, "    rr = (lambda: {} if requested_resources is None else requested_resources)\n"), (MA + M1, MA.replace("=requested_resources,", "=rr(),") + M1), (MA + M2, MA.replace("=requested_resources,", "=rr(),") + M2), (SA + L, SA.replace("=requested_resources,", "=rr(),") + L), (SA + U, SA.replace("=requested_resources,", "=rr(),") + U)]),
    ("same", S, [(SE, ""), (SE2, SE2.replace("if stop_event == []", "if not stop_event"))]),
    ("same", S, [(SE, ""), (SE2, SE2.replace("if stop_event == []", "if stop_event is None or stop_event == []"))]),
    ("same", S, [(RR, "    resources = {} if requested_resources is None else requested_resources\n    common = dict(env=env, registry=registry, requested_resources=resources)\n"), (MA + M1, "        MoveActivity(\n            **common,\n" + M1), (SA + L, "        ShiftAmountActivity(\n            **common,\n" + L), (MA + M2, "        MoveActivity(\n            **common,\n" + M2), (SA + U, "        ShiftAmountActivity(\n            **common,\n" + U)]),
    ("same", S, [("        stop_event = [\n            {\n                \"or\": [\n                    {\"type\": \"container\", \"concept\": origin, \"state\": \"empty\"},\n                    {\"type\": \"container\", \"concept\": destination, \"state\": \"full\"},\n                ]\n            }\n        ]\n", "        stop_event = _default(origin, destination)\n"), ("def single_run_process", "def _default(a, b):\n    full = dict(type=\"container\", state=\"full\", concept=b)\n    empty = dict(type=\"container\", state=\"empty\", concept=a)\n    return {\"or\": [full, empty]}\n\n\ndef single_run_process")]),
    ("same", S, [("        sub_processes=single_run,\n", "        sub_processes=list(single_run),\n")]),
    ("same", S, [("    single_run = [\n" + MA + M1 + "        ),\n", "    first = MoveActivity(\n        env,\n        registry,\n        requested_resources=requested_resources,\n".replace("        env,\n        registry,\n", "        env=env,\n        registry=registry,\n") + M1 + "    )\n    single_run = [\n        first,\n")]),
]

BA, MO, SH, WH = "model/base_activities.py", "model/move_activity.py", "model/shift_amount_activity.py", "model/while_activity.py"
WR = "    while_activity = WhileActivity(\n"
CASES += [
    ("bug", BA, [("            requested_resources if requested_resources is not None else {}\n", "            dict(requested_resources) if requested_resources is not None else {}\n")]),
    ("bug", BA, [("            requested_resources if requested_resources is not None else {}\n", "            requested_resources if requested_resources else {}\n")]),
    ("bug", SH, [("        self.origin = origin\n        self.destination = destination\n", "        self.origin = processor if phase == \"unloading\" else origin\n        self.destination = destination\n")]),
    ("bug", SH, [("        self.processor = processor\n", "        self.processor = destination if phase == \"loading\" else processor\n")]),
    ("bug", MO, [("        self.destination = destination\n", "        self.destination = getattr(destination, \"mooring\", destination)\n")]),
    ("bug", S, [(WR, "    if loader is unloader:\n        single_run = [p for p in single_run if p.name != f\"{name} unloading\"]\n" + WR)]),
    ("bug", S, [(WR, "    single_run.sort(key=lambda p: p.name)\n" + WR)]),
    ("bug", S, [(WR, "    for process in single_run[2:]:\n        process.requested_resources = {}\n" + WR)]),
    ("bug", S, [(WR, "    if mover.is_at(origin):\n        single_run.pop(0)\n" + WR)]),
    ("bug", S, [(WR, "    single_run[0].start_event = start_event\n" + WR)]),
    ("bug", S, [(L, L + "            amount=mover.container.get_capacity(),\n"), (U, U + "            amount=mover.container.get_level(),\n")]),
    ("bug", S, [("        start_event=start_event,\n    )\n", "        start_event=start_event or stop_event,\n    )\n")]),
    ("bug", S, [("        condition_event=stop_event,\n", "        condition_event=stop_event[:1],\n")]),
    ("bug", S, [("{\"type\": \"container\", \"concept\": origin, \"state\": \"empty\"}", "{\"type\": \"container\", \"concept\": origin, \"state\": \"empty\", \"id_\": \"sand\"}")]),
    ("bug", S, [("    if stop_event == []:\n", "    if stop_event == [] and origin.container.get_level() > 0:\n")]),
    ("bug", S, [("    if stop_event is None:\n", "    if stop_event is None or isinstance(stop_event, dict):\n")]),
    ("bug", S, [("    if stop_event is None:\n        stop_event = []\n", "    if stop_event is None or start_event is not None:\n        stop_event = []\n")]),
    ("bug", S, [("    if requested_resources is None:\n        requested_resources = {}\n", "    if requested_resources is None:\n        requested_resources = registry\n")]),
    ("bug", S, [("        sub_processes=single_run,\n", "        sub_processes=single_run[-1:] + single_run[:-1],\n")]),
    ("bug", S, [("    return single_run, while_activity", "    return single_run + [while_activity], while_activity")]),
    ("bug", S, [("            mover=mover,\n            destination=destination,\n", "            mover=mover,\n            destination=destination if destination is not origin else mover,\n")]),
    ("bug", WH, [("        self.sub_processes = sub_processes\n", "        self.sub_processes = list(reversed(sub_processes))\n")]),
    ("bug", WH, [("        self.sub_processes = sub_processes\n", "        self.sub_processes = sorted(sub_processes, key=lambda p: p.id)\n")]),
    ("bug", WH, [("        self.condition_event = condition_event\n", "        self.condition_event = condition_event[0] if isinstance(condition_event, list) and condition_event and \"or\" in condition_event[0] and False else []\n")]),
    ("same", S, [(WR, "    assert len(single_run) == 4\n" + WR)]),
    ("same", S, [(WR, "    processes = [*single_run]\n" + WR), ("        sub_processes=single_run,\n", "        sub_processes=processes,\n")]),
    ("same", S, [("        stop_event = [\n            {\n                \"or\": [\n                    {\"type\": \"container\", \"concept\": origin, \"state\": \"empty\"},\n                    {\"type\": \"container\", \"concept\": destination, \"state\": \"full\"},\n                ]\n            }\n        ]\n", "        conditions = []\n        for concept, state in ((origin, \"empty\"), (destination, \"full\")):\n            conditions.append({\"type\": \"container\", \"concept\": concept, \"state\": state})\n        stop_event = [{\"or\": conditions}]\n")]),
    ("same", S, [("    return single_run, while_activity", "    result = (single_run, while_activity)\n    return result")]),
    ("same", S, [("    if stop_event is None:\n        stop_event = []\n", "    if stop_event is None:\n        stop_event = list()\n")]),
    ("same", WH, [("        self.sub_processes = sub_processes\n", "        processes = sub_processes\n        self.sub_processes = processes\n")]),
]
CASES = [c for i, c in enumerate(CASES) if i not in [41]]
