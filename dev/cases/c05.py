E = "core/events_container.py"
B = '''        if not event or (not event_status and event.triggered):
            # If event_status is still correct keep it otherwise overwrite it.
            self._container_events[(id_, level, operator)] = self._env.event()

        self.update_container_events()
        return self._container_events[(id_, level, operator)]
'''
HEAD = '''        self._container_events.setdefault((id_, level, operator), self._env.event())

        event = self._container_events.get((id_, level, operator))
        current_level = self.get_level(id_)
        event_status = getattr(py_opp, operator)(current_level, level)

'''
UPD = '''        for (id_, level, operator), event in self._container_events.items():
            current_level = self.get_level(id_)
            event_status = getattr(py_opp, operator)(current_level, level)
            if event_status and not event.triggered:
                event.succeed()
'''
PUTCB = "        put_event.callbacks.append(self._callback)\n"
GETCB = "        get_event.callbacks.append(self._callback)\n"
CB = '''    def _callback(self, event, id_="default"):
        self.update_container_events()
'''
A = '''        assert operator in ["gt", "ge", "lt", "le"], (
            f"Chosen operator ({operator}) is not supported please choose "
            "from: 'gt', 'ge', 'lt', 'le'"
        )
'''
CASES = [
    ("bug", E, [(B, B.replace("event.triggered", "event.processed"))]),
    ("bug", E, [(B, B.replace("(not event_status and event.triggered)", "event.triggered and False"))]),
    ("bug", E, [(B, B.replace("not event_status and event.triggered", "not event_status"))]),
    ("bug", E, [(B, B.replace("        self.update_container_events()\n", ""))]),
    ("bug", E, [(HEAD, HEAD.replace("self.get_level(id_)", "self.get_level()"))]),
    ("bug", E, [(HEAD, HEAD.replace("(id_, level, operator)", "(id_, level)")), (B, B.replace("(id_, level, operator)", "(id_, level)")),
                (UPD, UPD.replace("(id_, level, operator)", "(id_, level)").replace("operator)(", '"ge")('))]),
    ("bug", E, [(UPD, UPD.replace("self.get_level(id_)", "self.get_level()"))]),
    ("bug", E, [(UPD, UPD.replace("(current_level, level)", "(level, current_level)"))]),
    ("bug", E, [(UPD, UPD.replace("                event.succeed()\n", "                event.succeed()\n                break\n"))]),
    ("bug", E, [(UPD, UPD.replace("if event_status and not", "if (event_status or current_level > level) and not"))]),
    ("bug", E, [(UPD, UPD.replace("if event_status and not event.triggered", "if event_status and event.callbacks and not event.triggered"))]),
    ("bug", E, [(GETCB, "")]),
    ("bug", E, [(PUTCB, "        if amount > 1:\n    " + PUTCB)]),
    ("bug", E, [(CB, CB.replace("        self.", '        if event.ok and id_ == "other":\n            self.'))]),
    ("bug", E, [('            level=0,\n            operator="le",', '            level=0,\n            operator="lt",')]),
    ("bug", E, [("            level=self.get_capacity(id_),", "            level=self.get_capacity(),")]),
    ("bug", E, [(A, "")]),
    ("bug", E, [(A, A.replace('"gt", "ge", "lt", "le"]', '"gt", "ge", "lt", "le", "eq"]'))]),
    ("bug", E, [(UPD, UPD.replace("            current_level", '            if id_.endswith("_reservations"):\n                continue\n            current_level'))]),
    ("bug", E, [(HEAD, HEAD.replace("(id_, level, operator)", "(id_, int(level), operator)")), (B, B.replace("(id_, level, operator)", "(id_, int(level), operator)"))]),
    ("same", E, [(HEAD + B, '''        key = (id_, level, operator)
        holds = getattr(py_opp, operator)(self.get_level(id_), level)
        event = self._container_events.get(key)
        if event is None or (event.triggered and not holds):
            self._container_events[key] = self._env.event()
        self.update_container_events()
        return self._container_events[key]
''')]),
    ("same", E, [(HEAD + B, '''        key = (id_, level, operator)
        if key in self._container_events:
            event = self._container_events[key]
            if event.triggered and not self._holds(id_, level, operator):
                self._container_events[key] = self._env.event()
        else:
            self._container_events[key] = self._env.event()
        self.update_container_events()
        return self._container_events[key]

    def _holds(self, id_, level, operator):
        return getattr(py_opp, operator)(self.get_level(id_), level)
'''), (UPD, '''        for key, event in self._container_events.items():
            if event.triggered:
                continue
            if self._holds(*key):
                event.succeed()
''')]),
    ("same", E, [(UPD, '''        for key in list(self._container_events):
            event = self._container_events[key]
            container, level, operator = key
            compare = getattr(py_opp, operator)
            if not event.triggered and compare(self.get_level(container), level):
                event.succeed()
''')]),
    ("same", E, [(PUTCB, "        put_event.callbacks.append(lambda event: self.update_container_events())\n")]),
    ("same", E, [(A, '''        if operator not in ("gt", "ge", "lt", "le"):
            raise AssertionError(f"Chosen operator ({operator}) is not supported")
''')]),
    ("same", E, [(UPD, '''        for (id_, level, operator), event in self._container_events.items():
            current_level = self.get_level(id_)
            if operator == "gt":
                event_status = current_level > level
            elif operator == "ge":
                event_status = current_level >= level
            elif operator == "lt":
                event_status = current_level < level
            else:
                event_status = current_level <= level
            if event_status and not event.triggered:
                event.succeed()
''')]),
    ("same", E, [(PUTCB, ""), (GETCB, ""), ('''        put_event = super().put(store_status)
''', '''        put_event = self._store(store_status)
'''), ('''        get_event = super().put(store_status)
''', '''        get_event = self._store(store_status)
'''), ("    def _callback(", '''    def _store(self, status):
        event = super().put(status)
        event.callbacks.append(self._callback)
        return event

    def _callback(''')]),
    ("same", E, [(HEAD, HEAD.replace('''        self._container_events.setdefault((id_, level, operator), self._env.event())

        event = self._container_events.get((id_, level, operator))
''', '''        event = self._container_events.setdefault(
            (id_, level, operator), self._env.event()
        )
'''))]),
]

CASES += [
    ("bug", E, [('''        res = [item["level"] for item in self.items if item["id"] == id_]
        if isinstance(res, list) and len(res) > 0:
            return res[0]
        return 0''', '''        res = [item["level"] for item in self.items if item["id"].startswith(id_)]
        if isinstance(res, list) and len(res) > 0:
            return res[-1]
        return 0''')]),
    ("bug", E, [('''        res = [item["level"] for item in self.items if item["id"] == id_]
''', '''        res = [item["level"] for item in self.items if item["id"] == id_ and item["level"] >= 0]
''')]),
    ("bug", E, [("        self.update_container_events()\n        return", "        if event_status:\n            event.succeed() if not event.triggered else None\n        return")]) if False else ("bug", E, [("            level=0,\n", "            level=1,\n")]),
    ("bug", E, [('''        put_event.callbacks.append(self._callback)

        return put_event''', '''        if id_ == "default" or not id_.startswith("default"):
            put_event.callbacks.append(self._callback)

        return put_event''')]),
    ("bug", E, [('''    def update_container_events(self):
''', '''    def update_container_events(self):
        if not self.container_list:
            return
''')]) if False else ("bug", E, [('''                event.succeed()
''', '''                event.succeed()
                return
''')]),
    ("bug", E, [('''            current_level = self.get_level(id_)
            event_status = getattr(py_opp, operator)(current_level, level)
            if event_status and not''', '''            current_level = self.get_level(id_)
            event_status = getattr(py_opp, operator)(round(current_level), level)
            if event_status and not''')]),
    ("bug", E, [("self._container_events.get((id_, level, operator))", "self._container_events.get((id_, level, operator), self._env.event())")]) if False else ("bug", E, [('        operator="ge",\n'.join(["            level=self.get_capacity(id_),\n    ", ""]), '        operator="gt",\n'.join(["            level=self.get_capacity(id_),\n    ", ""]))]),
    ("bug", E, [('''        get_event.callbacks.append(self._callback)
''', '''        if amount > 0:
            get_event.callbacks.append(self._callback)
''')]),
    ("bug", E, [("    def _callback(self, event, id_=\"default\"):\n", "    def _callback(self, event, id_=\"default\"):\n        if event.value is None:\n            return\n") if False else ("    def _callback(self, event, id_=\"default\"):\n", "    def _callback(self, event, id_=\"default\"):\n        if not self._container_events or len(self._container_events) == 1:\n            return\n")]),
    ("same", E, [('''            current_level = self.get_level(id_)
            event_status = getattr(py_opp, operator)(current_level, level)
            if event_status and not event.triggered:
                event.succeed()''', '''            if event.triggered:
                continue
            if self._holds(id_, level, operator):
                event.succeed()

    def _holds(self, id_, level, operator):
        return getattr(py_opp, operator)(self.get_level(id_), level)''')]),
    ("same", E, [('''            current_level = self.get_level(id_)
            event_status = getattr(py_opp, operator)(current_level, level)
            if event_status and not event.triggered:
                event.succeed()''', '''            compare = {"gt": py_opp.gt, "ge": py_opp.ge, "lt": py_opp.lt, "le": py_opp.le}[operator]
            if compare(self.get_level(id_), level) and not event.triggered:
                event.succeed()''')]),
    ("same", E, [('''        return self.get_container_event(
            level=0,
            operator="le",
            id_=id_,
        )''', '''        return self.get_container_event(0, "le", id_)''')]),
    ("same", E, [('''        for (id_, level, operator), event in self._container_events.items():
''', '''        for key, event in list(self._container_events.items()):
            id_, level, operator = key
''')]),
    ("same", E, [('''        res = [item["level"] for item in self.items if item["id"] == id_]
        if isinstance(res, list) and len(res) > 0:
            return res[0]
        return 0''', '''        for item in self.items:
            if item["id"] == id_:
                return item["level"]
        return 0''')]),
]
