B, M, H, S = "model/base_activities.py", "core/movable.py", "model/helpers.py", "model/single_run_process.py"
RR = '''        requested_resources = (
            requested_resources if requested_resources is not None else {}
        )
'''
KR = "        keep_resources = keep_resources if keep_resources is not None else []\n"
PL = "        self.plugins = list()\n"
CASES = [
    ("bug", B, [("        requested_resources=None,\n", "        requested_resources={},\n"), (RR, "")]),
    ("bug", B, [("        keep_resources=None,\n", "        keep_resources=[],\n"), (KR, "")]),
    ("bug", S, [("    requested_resources=None,\n):", "    requested_resources={},\n):")]),
    ("bug", B, [("    def __init__(self, *args, **kwargs):\n        super().__init__(*args, **kwargs)\n        self.plugins = list()\n", "    plugins = []\n")]),
    ("bug", B, [(PL, "        self.plugins = _PLUGINS\n"), ("class AbstractPluginClass", "_PLUGINS = []\n\n\nclass AbstractPluginClass")]),
    ("bug", B, [("requested_resources if requested_resources is not None else {}", "requested_resources if requested_resources is not None else _NOTHING"), ("class AbstractPluginClass", "_NOTHING = {}\n\n\nclass AbstractPluginClass")]),
    ("bug", "core/identifiable.py", [("str(uuid.uuid4())", "str(next(_IDS))"), ("class Identifiable", "import itertools\n\n_IDS = itertools.count()\n\n\nclass Identifiable")]),
    ("bug", "core/identifiable.py", [("        self.name = name\n", "        self.name = name\n        Identifiable.number += 1\n"), ("    def __init__(self, name", "    number = 0\n\n    def __init__(self, name")]),
    ("bug", "core/events_container.py", [("        self._container_events: dict = {}\n", ""), ("    def __init__(self, env, store", "    _container_events: dict = {}\n\n    def __init__(self, env, store")]),
    ("bug", "core/log.py", [("        self.logbook = []\n", "        self.logbook = kwargs.get('logbook', EMPTY)\n"), ("class Log(SimpyObject)", "EMPTY = []\n\n\nclass Log(SimpyObject)")]),
    ("bug", "core/log.py", [("        self.logbook = []\n", "        self.logbook = logbook\n"), ("    def __init__(self, *args, **kwargs):\n        super().__init__(*args, **kwargs)\n        \"\"\"Initialization\"\"\"\n        # record", "    def __init__(self, logbook=[], *args, **kwargs):\n        super().__init__(*args, **kwargs)\n        # record")]),
    ("bug", H, [("def get_subprocesses(items):", "def get_subprocesses(items, seen=[]):"), ("    for item in items:\n        items.extend(getattr(item, \"sub_processes\", []))\n", "    for item in items:\n        seen.append(item)\n        items.extend(getattr(item, \"sub_processes\", []))\n")]),
    ("bug", M, [("        self.on_pass_edge_functions: List[Callable] = []\n", ""), ("    # one instance on the class\n", "    on_pass_edge_functions: List[Callable] = []\n\n    def add(self, f):\n        self.on_pass_edge_functions.append(f)\n")]),
    ("bug", M, [("    @property\n    def v(self):\n        \"\"\"return", "    @functools.lru_cache()\n    def speed(self):\n        return self._v\n\n    @property\n    def v(self):\n        \"\"\"return"), ("import itertools\n", "import functools\nimport itertools\n")]),
    ("bug", "plugins/weather.py", [("        res = self.process_data(self.weather_criteria)\n", "        if self.weather_criteria.name not in _CACHE:\n            _CACHE[self.weather_criteria.name] = self.process_data(self.weather_criteria)\n        res = _CACHE[self.weather_criteria.name]\n"), ("class WeatherCriterion", "_CACHE: dict = {}\n\n\nclass WeatherCriterion")]),
    ("bug", B, [("        self.keep_resources = keep_resources\n", "        self.keep_resources = keep_resources\n        GenericActivity.registry = registry\n")]),
    ("bug", B, [("        self.keep_resources = keep_resources\n", "        self.keep_resources = keep_resources\n        type(self).registry = registry\n")]),
    ("bug", "core/events_container.py", [("    def __init__(self, env, store_capacity: int = 1, *args, **kwargs):", "    def __init__(self, env, store_capacity: int = 1, events: dict = dict(), *args, **kwargs):"), ("        self._container_events: dict = {}\n", "        self._container_events = events\n")]),
    ("same", B, [("        requested_resources=None,\n", "        requested_resources={},\n"), (RR, "        requested_resources = requested_resources or {}\n")]),
    ("same", B, [("        keep_resources=None,\n", "        keep_resources=[],\n"), (KR, "        keep_resources = list(keep_resources)\n")]),
    ("same", "core/log.py", [("            dtypes = {\n", "            dtypes = dict(DT)\n            dtypes = {\n"), ("class Log(SimpyObject)", "DT = {}\n\n\nclass Log(SimpyObject)")]),
    ("same", B, [('expr.get("state") in ["gt", "ge", "lt", "le"]', 'expr.get("state") in OPERATORS'), ("class AbstractPluginClass", "OPERATORS = [\"gt\", \"ge\", \"lt\", \"le\"]\n\n\nclass AbstractPluginClass")]),
    ("same", "model/single_run_process.py", [("    stop_event=None,\n", "    stop_event=[],\n"), ("    if stop_event is None:\n        stop_event = []\n\n", "")]),
    ("same", "core/processor.py", [("class Processor(SimpyObject):", "ROLES = {\"get\": \"origin\", \"put\": \"destination\"}\n\n\nclass Processor(SimpyObject):"), ('        obj_map = {"get": origin, "put": destination}\n        obj = obj_map[activity]\n', '        obj = {"origin": origin, "destination": destination}[ROLES[activity]]\n')]),
]

I, E, L, P = "core/identifiable.py", "core/events_container.py", "core/log.py", "core/processor.py"
CASES += [
    ("bug", M, [("WGS84 = pyproj.Geod(ellps=\"WGS84\")\n", "WGS84 = pyproj.Geod(ellps=\"WGS84\")\n_LENGTHS: dict = {}\n"),
                ("        return distance\n", "        _LENGTHS[self.name] = distance\n        return distance\n")]),
    ("bug", I, [("        self.name = name\n", "        global _LAST\n        _LAST += 1\n        self.number = _LAST\n        self.name = name\n"), ("class Identifiable", "_LAST = 0\n\n\nclass Identifiable")]),
    ("bug", I, [("        self.name = name\n", "        _ALL.append(self)\n        self.name = name\n"), ("class Identifiable", "_ALL = []\n\n\nclass Identifiable")]),
    ("bug", H, [("def register_processes(", "def known(p):\n    known.seen = getattr(known, \"seen\", {})\n    known.seen[p.name] = p\n    return p\n\n\ndef register_processes(")]),
    ("bug", I, [("        self.name = name\n", "        self.__class__.count = getattr(self.__class__, \"count\", 0) + 1\n        self.name = name\n")]),
    ("bug", B, [("        self.keep_resources = keep_resources\n", "        self.keep_resources = keep_resources\n        known = type(self).known\n        known.append(self)\n"), ("    def register_process(self)", "    known: list = []\n\n    def register_process(self)")]),
    ("bug", B, [("        self.keep_resources = keep_resources\n", "        self.keep_resources = keep_resources\n        self.memory[self.name] = self\n"), ("    def register_process(self)", "    memory: dict = {}\n\n    def register_process(self)")]),
    ("bug", E, [("    def get_level(self, id_=\"default\"):\n", "    def get_level(self, id_=\"default\", seen={}):\n        seen[id_] = seen.get(id_, 0) + 1\n")]),
    ("bug", E, [("    def get_level(self, id_=\"default\"):\n", "    def get_level(self, id_=\"default\", *, memo=([], {})):\n        memo[0].append(id_)\n")]),
    ("bug", L, [("        self.logbook = []\n", "        self.logbook = _BOOKS.setdefault(getattr(self, \"name\", None), [])\n"), ("class Log(SimpyObject)", "_BOOKS = {}\n\n\nclass Log(SimpyObject)")]),
    ("bug", I, [("id if id else str(uuid.uuid4())", "id if id else str(_NEXT())"), ("class Identifiable", "def _counter():\n    n = 0\n\n    def more():\n        nonlocal n\n        n += 1\n        return n\n\n    return more\n\n\n_NEXT = _counter()\n\n\nclass Identifiable")]),
    ("bug", H, [("    return items\n\n\ndef register", "    simpy.Environment.known = items\n    return items\n\n\ndef register"), ("import logging\n", "import logging\n\nimport simpy\n")]),
    ("bug", "core/container.py", [("        container_class = EventsContainer\n        self.container = container_class(self.env, store_capacity=store_capacity)\n", "        self.container = _shared(self.env, store_capacity)\n"), ("class HasContainer(", "@functools.lru_cache(maxsize=None)\ndef _shared(env, store_capacity):\n    return EventsContainer(env, store_capacity=store_capacity)\n\n\nclass HasContainer("), ('from .events', 'import functools\n\nfrom .events')]),
    ("bug", "core/locatable.py", [("        self.node = node\n", "        self.node = node\n        Locatable.last = self\n")]),
    ("bug", P, [("logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\nRATES: dict = {}\n"), ("        self.loading_rate = loading_rate\n", "        self.loading_rate = loading_rate\n        RATES.update({self.name: loading_rate})\n")]),
    ("bug", "plugins/weather.py", [("import openclsim.model as model\n", "import openclsim.model as model\n\nWINDOWS = []\n"), ("        self.window_delay = window_delay\n", "        self.window_delay = window_delay\n        windows = WINDOWS\n        windows += [window_length]\n")]),
    ("same", B, [("class AbstractPluginClass", "_MISSING = object()\n_KINDS = (\"activity\", \"container\", \"time\")\n\n\nclass AbstractPluginClass")]),
    ("same", E, [("import operator as py_opp\n", "import operator as py_opp\n\nOPERATORS = {\"gt\": py_opp.gt, \"ge\": py_opp.ge, \"lt\": py_opp.lt, \"le\": py_opp.le}\n"), ("getattr(py_opp, operator)(current_level, level)", "OPERATORS[operator](current_level, level)")]),
    ("same", L, [("        self.logbook = []\n", "        self.logbook = list(self.initial)\n"), ("class Log(SimpyObject):\n    \"\"\"Log class to log the object activities.\"\"\"\n", "class Log(SimpyObject):\n    \"\"\"Log class to log the object activities.\"\"\"\n\n    initial: list = []\n")]),
    ("same", L, [("        columns = [\n            \"Timestamp\",\n            \"ActivityID\",\n            \"ActivityState\",\n            \"ObjectState\",\n            \"ActivityLabel\",\n        ]\n", "        columns = self.COLUMNS\n"), ("class Log(SimpyObject):\n    \"\"\"Log class to log the object activities.\"\"\"\n", "class Log(SimpyObject):\n    \"\"\"Log class to log the object activities.\"\"\"\n\n    COLUMNS = [\"Timestamp\", \"ActivityID\", \"ActivityState\", \"ObjectState\", \"ActivityLabel\"]\n")]),
    ("same", H, [("def get_subprocesses(items):", "def get_subprocesses(items, extra=()):"), ]),
    ("same", I, [("class Identifiable", "import re\n\n_SAFE = re.compile(r\"\\w+\")\n\n\nclass Identifiable")]),
    ("same", B, [(PL, "        self.plugins = self._no_plugins()\n"), ("    def register_plugin(", "    @staticmethod\n    def _no_plugins():\n        return []\n\n    def register_plugin(")]),
    ("same", E, [("        self._container_events: dict = {}\n", "        self._container_events = dict()\n        seen: list = []\n        seen.append(env)\n")]),
]
