E = "core/events_container.py"
C = "core/container.py"
PUT = '''        store_status = super().get(lambda state: state["id"] == id_).value
        store_status["level"] = store_status["level"] + amount
        put_event = super().put(store_status)
        put_event.callbacks.append(self._callback)

        return put_event
'''
GET = '''        store_status = super().get(lambda state: state["id"] == id_).value
        store_status["level"] = store_status["level"] - amount
        get_event = super().put(store_status)
        get_event.callbacks.append(self._callback)

        return get_event
'''
LVL = '''        res = [item["level"] for item in self.items if item["id"] == id_]
        if isinstance(res, list) and len(res) > 0:
            return res[0]
        return 0
'''
CAP = LVL.replace('item["level"]', 'item["capacity"]')
INI = '''            container_item = {
                "id": item["id"],
                "capacity": item["capacity"],
                "level": item["level"],
            }
            reservation_item = {
                "id": f"{item['id']}_reservations",
                "capacity": item["capacity"],
                "level": item["level"],
            }

            super().put(container_item)
            super().put(reservation_item)
'''
CL = '''        return [
            item["id"]
            for item in self.items
            if not item["id"].endswith("_reservations")
        ]
'''
CASES = [
    ("bug", E, [(PUT, PUT.replace("] + amount", "] - amount"))]),
    ("bug", E, [(GET, GET.replace("] - amount", "] + amount"))]),
    ("bug", E, [(PUT, PUT.replace('state["id"] == id_', 'state["id"].startswith(id_)'))]),
    ("bug", E, [(GET, GET.replace('state["id"] == id_', 'id_ in state["id"]'))]),
    ("bug", E, [(GET, GET.replace('store_status["level"] - amount', 'max(0, store_status["level"] - amount)'))]),
    ("bug", E, [(PUT, PUT.replace('store_status["level"] + amount',
                                  'min(store_status["capacity"], store_status["level"] + amount)'))]),
    ("bug", E, [(PUT, PUT.replace('        put_event = ', '        if id_ == "default":\n            store_status["capacity"] += 0 * amount\n        put_event = '))]),
    ("bug", E, [(LVL, LVL.replace('item["id"] == id_', 'item["id"].startswith(id_)'))]),
    ("bug", E, [(CAP, '        return sum(item["capacity"] for item in self.items if item["id"] == id_ or item["id"].endswith(id_))\n')]),
    ("bug", E, [(INI, INI.replace('''_reservations",
                "capacity": item["capacity"],
                "level": item["level"],''', '''_reservations",
                "capacity": item["capacity"],
                "level": 0,'''))]),
    ("bug", E, [(CL, CL.replace('not item["id"].endswith("_reservations")', '"_reservations" not in item["id"]'))]),
    ("bug", E, [(INI, INI + '            if item["level"] > 0 and item["capacity"] <= 0:\n                break\n')]),
    ("bug", E, [(INI, INI.replace("            super().put(reservation_item)\n",
                                  '            if item["capacity"] > 0:\n                super().put(reservation_item)\n'))]),
    ("bug", E, [("capacity=store_capacity * 2)", "capacity=store_capacity + 1)")]),
    ("bug", C, [('''                    "level": level,
''', '''                    "level": min(level, capacity),
''')]),
    ("bug", E, [('def get_capacity(self, id_="default")', 'def get_capacity(self, id_="default_reservations")')]),
    ("bug", E, [(INI, '''            super().put(item)
            super().put({**item, "id": f"{item['id']}_reservations"})
''')]),
    ("bug", C, [("self.container = container_class(self.env, store_capacity=store_capacity)",
                 "self.container = container_class(self.env)")]),
    ("bug", C, [("        if capacity > 0:\n", "        if capacity > 1:\n")]),
    ("bug", "core/processor.py", [("        yield method(\n            amount - reserved_amount",
                                  '        for item in origin.container.items:\n            if item["id"] == id_:\n                item["level"] -= 0\n        yield method(\n            amount - reserved_amount')]),
    ("same", E, [(PUT, PUT.replace('store_status["level"] = store_status["level"] + amount', 'store_status["level"] += amount'))]),
    ("same", E, [(PUT, "        return self._change(amount, id_)\n"), (GET, "        return self._change(-amount, id_)\n"),
                 ("    def put(self,", "    def _change(self, delta, name):\n" + PUT.replace("id_", "name").replace("amount", "delta") + "\n    def put(self,")]),
    ("same", E, [(LVL, '        return next((item["level"] for item in self.items if item["id"] == id_), 0)\n')]),
    ("same", E, [(LVL, '        for item in self.items:\n            if item["id"] == id_:\n                return item["level"]\n        return 0\n')]),
    ("same", E, [(CL, '        names = []\n        for item in self.items:\n            name = item["id"]\n            if name.endswith("_reservations"):\n                continue\n            names.append(name)\n        return names\n')]),
    ("same", E, [(INI, '''            for suffix in ("", "_reservations"):
                super().put({"id": item["id"] + suffix, "capacity": item["capacity"], "level": item["level"]})
''')]),
    ("same", E, [(LVL, '        res = [item for item in self.items if item["id"] == id_]\n        return res[0]["level"] if res else 0\n')]),
    ("same", E, [(PUT, PUT.replace('store_status["level"] = store_status["level"] + amount',
                                   'old = store_status["level"]\n        store_status.update({"level": old + amount})'))]),
    ("same", E, [(LVL, "        return self._field(id_, \"level\")\n"), (CAP, "        return self._field(id_, \"capacity\")\n"),
                 ("    def get_capacity(", '    def _field(self, id_, key):\n        for item in self.items:\n            if item["id"] != id_:\n                continue\n            return item[key]\n        return 0\n\n    def get_capacity(')]),
    ("same", C, [('''            initials = [
                {
                    "id": "default",
                    "capacity": capacity,
                    "level": level,
                }
            ]
            self.container.initialize_container(initials)
''', '''            default = dict(id="default", capacity=capacity, level=level)
            self.container.initialize_container([default])
''')]),
]

UPD = '''        self.update_container_events()

'''
CB = '''    def _callback(self, event, id_="default"):
        self.update_container_events()
'''
HC = '''            initials = [
                {
                    "id": "default",
                    "capacity": capacity,
                    "level": level,
                }
            ]
'''
CASES += [
    ("bug", E, [(LVL, LVL.replace("return res[0]", "return round(res[0], 3)"))]),
    ("bug", E, [(PUT, PUT.replace("] + amount", "] + round(amount, 2)"))]),
    ("bug", E, [(GET, GET.replace('        get_event = super', '        if store_status["level"] < 1e-3:\n            store_status["level"] = 0\n        get_event = super'))]),
    ("bug", E, [(PUT, PUT.replace('put_event = super().put(store_status)', 'put_event = super().put({"id": id_, "capacity": self.get_capacity(id_), "level": store_status["level"]})'))]),
    ("bug", E, [(CB, CB + '        for item in self.items:\n            if item["level"] < 0:\n                item["level"] = 0\n')]),
    ("bug", E, [("            current_level = self.get_level(id_)\n            event_status = getattr(py_opp, operator)(current_level, level)\n            if event_status and",
                 "            current_level = self.get_level(id_)\n            event_status = getattr(py_opp, operator)(current_level, level)\n            for item in self.items:\n                item[\"level\"] = min(item[\"level\"], item[\"capacity\"])\n            if event_status and")]),
    ("bug", E, [(LVL, LVL.replace("        return 0\n", '        return self.items[0]["level"] if self.items else 0\n'))]),
    ("bug", E, [(CL, CL.replace('            if not', '            if item["level"] > 0 and not'))]),
    ("bug", E, [(CL, '        return [item["id"] for item in self.items[::2]]\n')]),
    ("bug", C, [(HC, HC.replace('"level": level', '"level": min(level, capacity)'))]),
    ("bug", C, [("        if capacity > 0:\n", "        if capacity > 0 and level > 0:\n")]),
    ("bug", C, [("        self.container.initialize_container(initials)\n\n    def get_state", "        self.container.initialize_container([i for i in initials if i[\"level\"] > 0])\n\n    def get_state")]),
    ("bug", E, [("capacity=store_capacity * 2)", "capacity=store_capacity)")]),
    ("bug", E, [(PUT, PUT.replace('state["id"] == id_', 'state["id"] == id_ and state["level"] < state["capacity"]'))]),
    ("bug", E, [(GET, GET.replace('        get_event = ', '        if store_status["level"] > store_status["capacity"]:\n            store_status["capacity"] = store_status["level"]\n        get_event = '))]),
    ("bug", E, [(INI, INI.replace('"capacity": item["capacity"],\n                "level": item["level"],\n            }\n            reservation', '"capacity": max(item["capacity"], item["level"]),\n                "level": item["level"],\n            }\n            reservation'))]),
    ("bug", E, [(INI, INI.replace('            super().put(reservation_item)\n', '            if item["capacity"] > item["level"]:\n                super().put(reservation_item)\n'))]),
    ("bug", "model/shift_amount_activity.py", [("        self.reserved_amount = self.p", "        self.destination.container.items[0][\"level\"] = 0\n        self.reserved_amount = self.p")]),
    ("bug", E, [(CAP, CAP.replace('item["id"] == id_', 'item["id"] == id_.split("_")[0]'))]),
    ("bug", E, [('def get_level(self, id_="default"):\n', 'def get_level(self, id_="default"):\n        id_ = id_ or self.container_list[0]\n')]),
    ("same", E, [(LVL, '        return self._account(id_).get("level", 0)\n\n    def _account(self, id_):\n        return next((item for item in self.items if item["id"] == id_), {})\n'),
                 (CAP, '        return self._account(id_).get("capacity", 0)\n')]),
    ("same", E, [(PUT, '        return self._change(amount, id_)\n'), (GET, '        return self._change(-amount, id_)\n\n    def _change(self, delta, id_):\n' + PUT.replace("+ amount", "+ delta"))]),
    ("same", E, [(LVL, '        for item in self.items:\n            if item["id"] == id_:\n                return item["level"]\n        return 0\n')]),
    ("same", E, [(INI, '            for suffix in ("", "_reservations"):\n                super().put({"id": item["id"] + suffix, "capacity": item["capacity"], "level": item["level"]})\n')]),
    ("same", E, [(INI, '            for id_ in (item["id"], f"{item[\'id\']}_reservations"):\n                account = dict(id=id_, capacity=item["capacity"], level=item["level"])\n                super().put(account)\n')]),
    ("same", E, [(PUT, PUT.replace('store_status["level"] = store_status["level"] + amount', 'store_status.update(level=store_status["level"] + amount)'))]),
    ("same", E, [(GET, '        def wanted(state):\n            return state["id"] == id_\n\n' + GET.replace('lambda state: state["id"] == id_', 'wanted').replace('store_status["level"] = store_status["level"] - amount', 'store_status["level"] -= amount'))]),
    ("same", E, [(CL, '        ids = []\n        for item in self.items:\n            if item["id"].endswith("_reservations"):\n                continue\n            ids.append(item["id"])\n        return ids\n')]),
    ("same", E, [(LVL, '        levels = {item["id"]: item["level"] for item in self.items}\n        return levels.get(id_, 0)\n')]),
    ("same", C, [(HC, HC.replace('            initials = [\n                {\n                    "id": "default",\n                    "capacity": capacity,\n                    "level": level,\n                }\n            ]\n', '            initials = [dict(id="default", capacity=capacity, level=level)]\n'))]),
    ("same", E, [("        for item in initials:\n            assert \"id\" in item\n            assert \"capacity\" in item\n            assert \"level\" in item\n", "        for item in initials:\n            for key in (\"id\", \"capacity\", \"level\"):\n                assert key in item\n")]),
]
