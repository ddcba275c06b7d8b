B, H, P, E, D, L, PA, S = ("model/base_activities.py", "model/helpers.py", "core/processor.py", "core/events_container.py",
                           "plugins/delay.py", "core/log.py", "model/parallel_activity.py", "model/shift_amount_activity.py")
UN = '''            i for i in items if i.name not in [e.name for e in registerd_items]
        ]
'''
LOC = "        for location in set([self, origin, destination]):\n"
REQ = '''            yield from self._request_resource(
                self.requested_resources, self.processor.resource
            )
'''
PUP = '''        for (id_, level, operator), event in self._container_events.items():
'''
RSUB = '''            if len(unregistered_items) == 0:'''
CASES = [
    ("bug", H, [("        unregistered_items = [\n" + UN, "        unregistered_items = list(set(items) - set(registerd_items))\n")]),
    ("bug", H, [("    return items\n\n\ndef register", "    return list(set(items))\n\n\ndef register")]),
    ("bug", H, [("        items = [i for i in items]\n", "        items = [i for i in {*items}]\n")]),
    ("bug", H, [("        unregistered_items = [\n" + UN, "        unregistered_items = sorted(set(items) - set(registerd_items), key=lambda i: i.id)\n")]),
    ("bug", H, [("        for item in unregistered_items:\n", "        for item in {i.name: i for i in set(unregistered_items)}.values():\n")]),
    ("bug", B, [("                    [activity_item.main_process for activity_item in activity_]\n", "                    [next(iter(activity_)).main_process]\n")]),
    ("bug", B, [("                    [activity_item.main_process for activity_item in activity_]\n", "                    [list(activity_)[-1].main_process]\n")]),
    ("bug", S, [(REQ, "            for obj in {self.processor, self.origin}:\n                yield from self._request_resource(\n                    self.requested_resources, obj.resource\n                )\n")]),
    ("bug", S, [(REQ, "            resources = set([self.processor.resource, self.origin.resource])\n            for resource in resources:\n                yield from self._request_resource(\n                    self.requested_resources, resource\n                )\n")]),
    ("bug", D, [("* self.delay_factor\n", "* self.delay_factor * np.random.uniform(0.9, 1.1)\n"), ("import openclsim.model as model", "import numpy as np\n\nimport openclsim.model as model")]),
    ("bug", D, [("* self.delay_factor\n", "* self.delay_factor\n        activity_delay += jitter()\n"), ("class DelayPlugin", "def jitter():\n    return random.random()\n\n\nclass DelayPlugin"), ("import openclsim.model as model", "import random\n\nimport openclsim.model as model")]),
    ("bug", L, [("            \"Timestamp\": datetime.datetime.utcfromtimestamp(t),", "            \"Timestamp\": datetime.datetime.now(),")]),
    ("bug", L, [("        entry = {\n            \"Timestamp\": datetime.datetime.utc", "        created = time.time()\n        entry = {\n            \"Created\": created,\n            \"Timestamp\": datetime.datetime.utc"), ("import datetime\n", "import datetime\nimport time\n")]),
    ("bug", E, [(PUP, "        for (id_, level, operator), event in set(self._container_events.items()):\n")]),
    ("bug", E, [(PUP, "        pending = {e for e in self._container_events.items()}\n        for (id_, level, operator), event in pending:\n")]),
    ("bug", PA, [("                    i += 1\n", "                    i += 1\n            for ref in set(subprocess_ids):\n                activity_log.log_entry_v1(\n                    t=env.now,\n                    activity_id=ref,\n                    activity_state=core.LogState.STOP,\n                )\n")]),
    ("bug", "model/basic_activity.py", [("env.timeout(self.duration,", "env.timeout(self.duration + (hash(self.name) % 7) * 1e-6,")]),
    ("bug", "model/basic_activity.py", [("env.timeout(self.duration,", "env.timeout(self.duration if not os.environ.get('FAST') else 0,"), ("import openclsim.core as core", "import os\n\nimport openclsim.core as core")]),
    ("bug", B, [("            for log in additional_logs:\n                log.log_entry_v1(\n                    t=start_time,", "            for log in set(additional_logs):\n                self.log_entry_v1(\n                    t=start_time,")]),
    ("bug", B, [("key=lambda", "key=lambda")] if False else [("        self.registry.setdefault(\"name\", {}).setdefault(self.name, set()).add(self)\n", "        for other in self.registry.get('name', {}).get(self.name, ()):\n            if not other.done_event.triggered:\n                other.done_event.succeed()\n        self.registry.setdefault(\"name\", {}).setdefault(self.name, set()).add(self)\n")]),
    ("bug", B, [("                activity_from_name = self.registry.get(\"name\", {}).get(key)\n", "                activity_from_name = self.registry.get(\"name\", {}).get(key)\n                for a in activity_from_name or ():\n                    if a.main_process is not None:\n                        activity_from_name = [a]\n                        return a.main_process\n")]),
    ("same", P, [(LOC, "        for location in {self, origin, destination}:\n")]),
    ("same", P, [(LOC, "        for location in dict.fromkeys([self, origin, destination]):\n")]),
    ("same", P, [(LOC, "        locations = set([self, origin, destination])\n        for location in locations:\n")]),
    ("same", P, [(LOC, "        for location in sorted({self, origin, destination}, key=lambda x: x.name):\n")]),
    ("same", H, [(UN, "            i for i in items if i.name not in {e.name for e in registerd_items}\n        ]\n")]),
    ("same", H, [("    return items\n\n\ndef register", "    seen = set()\n    unique = []\n    for i in items:\n        if i not in seen:\n            seen.add(i)\n            unique.append(i)\n    return unique if len(unique) < len(items) else items\n\n\ndef register")]),
    ("same", H, [("                logger.info(e)\n", "                logger.info(\"%s %s\", time.time(), e)\n"), ("import logging\n", "import logging\nimport time\n")]),
    ("same", H, [("    items = get_subprocesses(processes)\n", "    items = get_subprocesses(processes)\n    t0 = time.perf_counter()\n"), ("                logger.info(e)\n", "                logger.info(f\"{time.perf_counter() - t0} {e}\")\n"), ("import logging\n", "import logging\nimport time\n")]),
    ("same", B, [("                return self.env.all_of(\n                    [activity_item.main_process for activity_item in activity_]\n                )\n", "                processes = []\n                for activity_item in activity_:\n                    processes.append(activity_item.main_process)\n                return self.env.all_of(processes)\n")]),
    ("same", B, [("                return self.env.all_of(\n                    [activity_item.main_process for activity_item in activity_]\n                )\n", "                return self._all_done(activity_)\n"), ("    def delayed_process(", "    def _all_done(self, activities):\n        return self.env.all_of([a.main_process for a in activities])\n\n    def delayed_process(")]),
    ("same", "core/identifiable.py", [("        self.id = id if id else str(uuid.uuid4())", "        if not id:\n            id = self._new_id()\n        self.id = id\n\n    @staticmethod\n    def _new_id():\n        return str(uuid.uuid4())")]),
    ("same", P, [(LOC, "        for location in set([self, origin, destination]):\n            env = location.env\n")]),
]
CASES += [("bug", "model/helpers.py", [("        for item in unregistered_items:\n            try:", "        for item in sorted(unregistered_items, key=lambda i: str(i.id)):\n            try:")]),
    ("same", B, [("        self.registry.setdefault(\"name\", {}).setdefault(self.name, set()).add(self)\n", "        self.registry.setdefault(\"name\", {}).setdefault(self.name, set()).add(self)\n        counts = {}\n        for other in self.registry[\"name\"][self.name]:\n            counts[other.id] = counts.get(other.id, 0) + 1\n")]),
]

W, M, BA = "plugins/weather.py", "core/movable.py", "model/basic_activity.py"
CASES += [
    ("bug", M, [("        return distance\n", "        return distance * (1 + 1e-9 * np.random.randn())\n")]),
    ("bug", E, [("    def update_container_events(self):\n        for (id_, level, operator), event in self._container_events.items():\n", "    def update_container_events(self):\n        for (id_, level, operator), event in sorted(self._container_events.items(), key=lambda kv: id(kv[1])):\n")]),
    ("bug", E, [("    def update_container_events(self):\n        for (id_, level, operator), event in self._container_events.items():\n", "    def update_container_events(self):\n        for (id_, level, operator), event in sorted(self._container_events.items(), key=lambda kv: hash(kv[0])):\n")]),
    ("bug", W, [("        res = self.process_data(self.weather_criteria)\n", "        res = self.process_data(self.weather_criteria)\n        start_time = start_time or time.time()\n"), ("from typing import Optional\n", "import time\nfrom typing import Optional\n")]),
    ("bug", B, [("        self.keep_resources = keep_resources\n", "        self.keep_resources = keep_resources\n        if os.path.exists(\"openclsim.cfg\"):\n            self.keep_resources = []\n"), ("from abc import ABC", "import os\nfrom abc import ABC")]),
    ("bug", H, [("    return items\n\n\ndef register", "    return list({i: None for i in frozenset(items)})\n\n\ndef register")]),
    ("bug", H, [("    return items\n\n\ndef register", "    random.shuffle(items)\n    return items\n\n\ndef register"), ("import logging\n", "import logging\nimport random\n")]),
    ("bug", S, [(REQ, "            order = list({id(o): o for o in (self.processor, self.origin)}.items())\n            order.sort()\n            for _, obj in order:\n                yield from self._request_resource(\n                    self.requested_resources, obj.resource\n                )\n")]),
    ("bug", P, [("            location.log_entry_v1(\n                t=location.env.now,\n                activity_id=self.activity_id,\n                activity_state=LogState.START,", "            self.log_entry_v1(\n                t=location.env.now,\n                activity_id=location.id,\n                activity_state=LogState.START,")]),
    ("bug", D, [("        activity_delay = (env.now - start_activity) * self.delay_factor\n", "        activity_delay = (env.now - start_activity) * self.delay_factor\n        activity_delay += uuid.uuid4().int % 2\n"), ("import openclsim.model as model", "import uuid\n\nimport openclsim.model as model")]),
    ("bug", D, [("        activity_delay = (env.now - start_activity) * self.delay_factor\n", "        now = datetime.datetime.utcnow()\n        activity_delay = (env.now - start_activity) * self.delay_factor\n        if now.weekday() > 4:\n            activity_delay = 0\n"), ("import openclsim.model as model", "import datetime\n\nimport openclsim.model as model")]),
    ("bug", B, [("                    [activity_item.main_process for activity_item in activity_]\n", "                    [min(activity_, key=id).main_process]\n")]),
    ("bug", B, [("                    [activity_item.main_process for activity_item in activity_]\n", "                    [activity_.copy().pop().main_process]\n")]),
    ("bug", H, [("        items = [i for i in items]\n", "        items = list(set(items) | set())\n")]),
    ("bug", H, [("        items = [i for i in items]\n", "        items = [*map(lambda i: i, set(items))]\n")]),
    ("same", H, [(UN, "            i for i in items if i.name not in set(e.name for e in registerd_items)\n        ]\n")]),
    ("same", H, [("        items = [i for i in items]\n", "        items = list(dict.fromkeys(items))\n")] if False else [("        items = [i for i in items]\n", "        items = list(items)\n")]),
    ("same", P, [(LOC, "        parties = {self, origin, destination}\n        if len(parties) < 3:\n            logger.debug(\"an object takes part twice\")\n        for location in parties:\n")]),
    ("same", P, [(LOC, "        for location in {id(o): o for o in (self, origin, destination)}.values():\n")]),
    ("same", E, [("        assert operator in [\"gt\", \"ge\", \"lt\", \"le\"], (", "        assert operator in {\"gt\", \"ge\", \"lt\", \"le\"}, (")]),
    ("same", B, [("        self.registry.setdefault(\"name\", {}).setdefault(self.name, set()).add(self)\n", "        names = self.registry.setdefault(\"name\", {})\n        if self.name not in names:\n            names[self.name] = set()\n        names[self.name].add(self)\n")]),
]
