B, M, I = "model/base_activities.py", "core/movable.py", "core/identifiable.py"
S = "        super().__init__(*args, **kwargs)\n"
RR = '''        requested_resources = (
            requested_resources if requested_resources is not None else {}
        )
'''
KR = "        keep_resources = keep_resources if keep_resources is not None else []\n"
RES = "        self.resource = simpy.Resource(self.env, capacity=nr_resources)"
CASES = [
    ("bug", B, [(RR, "        requested_resources = requested_resources or {}\n")]),
    ("bug", B, [(KR, "        keep_resources = []\n")]),
    ("bug", B, [("        self.keep_resources = keep_resources\n", "        self.keep_resources = []\n")]),
    ("bug", "core/resource.py", [(S, "        super().__init__(**kwargs)\n")]),
    ("bug", "core/resource.py", [(S, "        super().__init__(*args)\n")]),
    ("bug", "core/resource.py", [(S, "        SimpyObject.__init__(self, *args, **kwargs)\n")]),
    ("bug", "core/resource.py", [(RES, "        self.resource = simpy.Resource(self.env)")]),
    ("bug", "core/log.py", [("    def __init__(self, *args, **kwargs):\n        super().__init__(*args, **kwargs)\n        \"\"\"Initialization\"\"\"\n        # record", "    def __init__(self, *args, **kwargs):\n        if args or kwargs:\n            super().__init__(*args, **kwargs)\n        # record")]),
    ("bug", M, [("        self._v = v\n", "        self._v = v or 1\n"),]),
    ("bug", M, [("        self.engine_order = engine_order\n\n    def move", "        self.engine_order = 1\n\n    def move")]),
    ("bug", M, [("        super().__init__(*args, **kwargs)\n        self.compute_v = compute_v\n\n    @property", "        super().__init__(*args, **kwargs)\n        super().__init__(*args, **kwargs)\n        self.compute_v = compute_v\n\n    @property")]),
    ("bug", I, [('            id = kwargs.pop("ID")\n', '            kwargs.pop("ID")\n')]),
    ("bug", I, [("        super().__init__(*args, **kwargs)\n        self.name = name\n", "        kwargs.pop(\"tags\", None)\n        super().__init__(*args, **kwargs)\n        self.name = name\n")]),
    ("bug", "core/container.py", [("super().__init__(capacity=0, store_capacity=store_capacity, *args, **kwargs)", "super().__init__(capacity=0, *args, **kwargs)")]),
    ("bug", "core/container.py", [('                    "level": level,\n', '                    "level": 0.0,\n')]),
    ("bug", "model/move_activity.py", [("        self.duration = duration\n", "        self.duration = duration or None\n")]),
    ("bug", "model/move_activity.py", [("        self.duration = duration\n", "")]),
    ("bug", "core/processor.py", [("        self.load_manoeuvring = load_manoeuvring\n", "        self.load_manoeuvring = int(load_manoeuvring)\n")]),
    ("bug", "model/shift_amount_activity.py", [("        self.amount = amount\n", "        self.amount = amount or 1\n")]),
    ("bug", "plugins/delay.py", [("            delay_plugin = DelayPlugin(delay_percentage=delay_percentage)", "            delay_plugin = DelayPlugin()")]),
    ("bug", "plugins/weather.py", [("    def __init__(self, metocean_criteria, metocean_df, *args, **kwargs):\n        super().__init__(*args, **kwargs)\n", "    def __init__(self, metocean_criteria, metocean_df, *args, **kwargs):\n        if metocean_criteria is not None:\n            super().__init__(*args, **kwargs)\n")]),
    ("same", B, [(RR, "        if requested_resources is None:\n            requested_resources = {}\n")]),
    ("same", B, [(KR, ""), ("        self.keep_resources = keep_resources\n", "        self.keep_resources = [] if keep_resources is None else keep_resources\n")]),
    ("same", "core/resource.py", [(S, "        super(HasResource, self).__init__(*args, **kwargs)\n")]),
    ("same", "core/resource.py", [(RES, "        capacity = nr_resources\n        self.resource = simpy.Resource(self.env, capacity)")]),
    ("same", M, [("        self._v = v\n        self.engine_order = engine_order\n", "        self._v, self.engine_order = v, engine_order\n")]),
    ("same", "core/log.py", [("    def __init__(self, *args, **kwargs):\n        super().__init__(*args, **kwargs)\n        \"\"\"Initialization\"\"\"\n        # record", "    def __init__(self, *arguments, **options):\n        super().__init__(*arguments, **options)\n        # record")]),
    ("same", "model/move_activity.py", [("        self.destination = destination\n        self.mover = mover\n        self.duration = duration\n", "        self._set(destination, mover, duration)\n"), ("    def main_process_function(", "    def _set(self, destination, mover, duration):\n        self.destination = destination\n        self.mover = mover\n        self.duration = duration\n\n    def main_process_function(")]),
    ("same", "core/container.py", [('''            initials = [
                {
                    "id": "default",
                    "capacity": capacity,
                    "level": level,
                }
            ]
            self.container.initialize_container(initials)
''', '''            initial = dict(id="default", capacity=capacity, level=level)
            self.container.initialize_container([initial])
''')]),
    ("same", I, [('''            id = kwargs.pop("ID")

        super().__init__(*args, **kwargs)
        self.name = name
        self.id = id if id else str(uuid.uuid4())
''', '''            id = kwargs.pop("ID")
        if not id:
            id = str(uuid.uuid4())

        super().__init__(*args, **kwargs)
        self.name = name
        self.id = id
''')]),
]

P, WA, SA, LD, SEQ, WH = "plugins/weather.py", "model/while_activity.py", "model/shift_amount_activity.py", "core/processor.py", "model/sequential_activity.py", "model/while_activity.py"
CASES += [
    ("bug", "core/simpy_object.py", [("    def __init__(self, env, *args, **kwargs):\n        super().__init__(*args, **kwargs)\n", "    def __init__(self, env, *args, **kwargs):\n        if args or kwargs:\n            super().__init__(*args, **kwargs)\n")]),
    ("bug", "core/locatable.py", [("        super().__init__(*args, **kwargs)\n", "        super().__init__(*args, **{k: v for k, v in kwargs.items() if k != \"level\"})\n")]),
    ("bug", "core/locatable.py", [("        super().__init__(*args, **kwargs)\n", "        try:\n            super().__init__(*args, **kwargs)\n        except TypeError:\n            super().__init__()\n")]),
    ("bug", "core/locatable.py", [("        self.node = node\n", "        self.node = node or None\n")]),
    ("bug", "core/resource.py", [(RES, "        self.resource = simpy.Resource(self.env, capacity=max(1, int(nr_resources)))")]),
    ("bug", "core/resource.py", [(RES, "        if not hasattr(self, \"container\"):\n            self.resource = simpy.Resource(self.env, capacity=nr_resources)\n        else:\n            self.resource = simpy.Resource(self.env, capacity=1)")]),
    ("bug", LD, [("        self.unload_manoeuvring = unload_manoeuvring\n", "        self.unload_manoeuvring = unload_manoeuvring if callable(unloading_rate) else 0\n")]),
    ("bug", LD, [("        self.loading_rate = loading_rate\n", "        self.loading_rate = loading_rate if callable(loading_rate) else max(loading_rate, 1)\n")]),
    ("bug", P, [("        self.window_delay = window_delay\n", "        self.window_delay = window_delay if window_delay > 0 else 0\n")]),
    ("bug", P, [("        self.window_length = window_length\n", "        self.window_length = max(window_length, 1)\n")]),
    ("bug", P, [("        self.condition = condition\n", "        self.condition = condition.strip()\n")]),
    ("bug", SA, [("        self.id_ = id_\n", "        self.id_ = id_ if hasattr(origin, \"container\") else \"default\"\n")]),
    ("bug", SA, [("        self.phase = phase\n", "        self.phase = phase if duration is None else None\n")]),
    ("bug", "core/log.py", [("        self.activity_id = activity_id\n", "        self.activity_id = None\n")]),
    ("bug", I, [("        self.id = id if id else str(uuid.uuid4())", "        self.id = id if isinstance(id, str) else str(uuid.uuid4())")]),
    ("bug", "critical_path/base_cp.py", [("        super().__init__(*args, **kwargs)\n", "        super().__init__()\n")]),
    ("bug", "core/movable.py", [("        self.multiply_engine_order", "        self.multiply_engine_order")] if False else [("        self._v = v\n", "        self._v = float(v) if v > 0 else 1.0\n")]),
    ("same", "core/movable.py", [("        self._v = v\n        self.engine_order = engine_order\n", "        for name, value in ((\"_v\", v), (\"engine_order\", engine_order)):\n            setattr(self, name, value)\n")]),
    ("same", "core/resource.py", [(RES, "        self.resource = self._new_resource(nr_resources)\n\n    def _new_resource(self, number):\n        return simpy.Resource(self.env, capacity=number)")]),
    ("same", SA, [("        self.origin = origin\n        self.destination = destination\n\n        self.processor = processor\n", "        self.origin, self.destination, self.processor = origin, destination, processor\n")]),
    ("same", B, [(RR, "        if not (requested_resources is not None):\n            requested_resources = dict()\n"), (KR, "        if keep_resources is None:\n            keep_resources = list()\n")]),
    ("same", "core/locatable.py", [("        self.geometry = geometry\n", "        self._place(geometry)\n"), ("    def is_at(", "    def _place(self, geometry):\n        self.geometry = geometry\n\n    def is_at(")]),
    ("same", LD, [("        self.loading_rate = loading_rate\n        self.load_manoeuvring = load_manoeuvring\n", "        self.load_manoeuvring = load_manoeuvring\n        rate = loading_rate\n        self.loading_rate = rate\n")]),
    ("same", "core/simpy_object.py", [("        super().__init__(*args, **kwargs)\n        self.env = env\n", "        parent = super()\n        parent.__init__(*args, **kwargs)\n        self.env = env\n")]),
    ("same", "core/container.py", [("        if capacity > 0:\n            initials = [\n                {\n                    \"id\": \"default\",\n                    \"capacity\": capacity,\n                    \"level\": level,\n                }\n            ]\n            self.container.initialize_container(initials)\n", "        if not capacity > 0:\n            return\n        self.container.initialize_container(\n            [{\"id\": \"default\", \"capacity\": capacity, \"level\": level}]\n        )\n")]),
]
CASES = [c for i, c in enumerate(CASES) if i not in [45]]
