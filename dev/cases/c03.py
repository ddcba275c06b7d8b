P = "core/processor.py"
S = "model/shift_amount_activity.py"
C1 = '''                self._release_resource(
                    self.requested_resources,
                    self.processor.resource,
                )
                continue

            yield from'''
C2 = '''            if self.origin.container.get_level(self.id_) < amount:
                self._release_resource(
                    self.requested_resources,
                    self.processor.resource,
                )
                self._release_resource(
                    self.requested_resources,
                    self.origin.resource,
                )
                continue
'''
CASES = [
    ("bug", P, [("new_amount = min(origin_max_amount, destination_max_amount)", "new_amount = max(origin_max_amount, destination_max_amount)")]),
    ("bug", P, [("new_amount = min(amount, new_amount)", "new_amount = amount")]),
    ("bug", P, [("if destination_max_amount <= 0", "if destination_max_amount < 0")]),
    ("bug", P, [("org_cont.get_level(id_)\n        if", "org_cont.get_capacity(id_)\n        if")]),
    ("bug", P, [("dest_cont.get_capacity(id_) - dest_cont.get_level(id_)\n", "dest_cont.get_capacity(id_) - dest_cont.get_level()\n")]),
    ("bug", S, [(C2, "")]),
    ("bug", S, [(C2, C2.replace("                continue\n", "                amount = self.origin.container.get_level(self.id_)\n"))]),
    ("bug", S, [(C2, C2.replace('''                self._release_resource(
                    self.requested_resources,
                    self.origin.resource,
                )
''', ''))]),
    ("bug", S, [(C1, "                continue\n\n            yield from")]),
    ("bug", S, [(C2, C2.replace("self.origin.container.get_level(self.id_)", "self.origin.container.get_level()"))]),
    ("bug", S, [("            yield from self._request_resource(\n                self.requested_resources, self.processor.resource\n            )\n            if self.origin",
                 "            if self.origin"), (C2, C2 + "            yield from self._request_resource(\n                self.requested_resources, self.processor.resource\n            )\n")]),
    ("bug", S, [(C2, C2.replace("< amount", "< amount / 2"))]),
    ("bug", P, [("if amount is not None:\n            new_amount", "if amount is not None and amount > 1:\n            new_amount")]),
    ("bug", P, [("        if origin_max_amount <= 0:", "        if origin_max_amount <= 0 and amount is None:")]),
    ("same", P, [("        new_amount = min(origin_max_amount, destination_max_amount)\n        if amount is not None:\n            new_amount = min(amount, new_amount)\n\n        return new_amount",
                  "        if amount is None:\n            return min(origin_max_amount, destination_max_amount)\n        return min(amount, origin_max_amount, destination_max_amount)")]),
    ("same", P, [("        new_amount = min(origin_max_amount, destination_max_amount)\n",
                  "        if origin_max_amount < destination_max_amount:\n            new_amount = origin_max_amount\n        else:\n            new_amount = destination_max_amount\n")]),
    ("same", S, [(C2, C2.replace("if self.origin.container.get_level(self.id_) < amount", "origin_level = self.origin.container.get_level(self.id_)\n            if not origin_level >= amount"))]),
    ("same", S, [(C2 + "            all_available = True\n", '''            if self.origin.container.get_level(self.id_) >= amount:
                all_available = True
            else:
                for obj in (self.processor, self.origin):
                    self._release_resource(self.requested_resources, obj.resource)
''')]),
    ("same", S, [("        while not all_available and amount > 0:", "        while amount > 0:"), ("            all_available = True\n", "            break\n"), ("        all_available = False\n", "")]),
    ("same", P, [('''        dest_cont = destination.container
        destination_max_amount = dest_cont.get_capacity(id_) - dest_cont.get_level(id_)
''', '''        dest_cont = destination.container

        def free_space(container):
            return container.get_capacity(id_) - container.get_level(id_)

        destination_max_amount = free_space(dest_cont)
''')]),
    ("same", P, [("        new_amount = min(origin_max_amount, destination_max_amount)\n        if amount is not None:\n            new_amount = min(amount, new_amount)\n\n        return new_amount",
                  "        limits = [origin_max_amount, destination_max_amount]\n        if amount is not None:\n            limits.append(amount)\n        return min(limits)")]),
]

CC = "core/events_container.py"
PS = "core/processor.py"
SH = "model/shift_amount_activity.py"
CASES += [
    ("bug", CC, [('''        res = [item["level"] for item in self.items if item["id"] == id_]
''', '''        res = [item["level"] for item in self.items if item["id"].startswith(id_)]
''')]),
    ("bug", CC, [('''        res = [item["capacity"] for item in self.items if item["id"] == id_]
        if isinstance(res, list) and len(res) > 0:
            return res[0]
        return 0''', '''        res = [item["capacity"] for item in self.items if item["id"] == id_]
        if isinstance(res, list) and len(res) > 0:
            return max(res)
        return max(item["capacity"] for item in self.items)''')]),
    ("bug", SH, [('''        all_available = False
        while not all_available and amount > 0:
            amount = self.processor.determine_processor_amount(
                self.origin, self.destination, self.amount, self.id_
            )
''', '''        all_available = False
        while not all_available and amount > 0:
''')]),
    ("bug", SH, [("                self.origin, self.destination, self.amount, self.id_\n            )\n\n            # yield", "                self.origin, self.destination, amount, self.id_\n            )\n            if self.duration is not None and self.amount:\n                amount = self.amount\n\n            # yield")]),
    ("bug", SH, [('''                self._release_resource(
                    self.requested_resources,
                    self.origin.resource,
                )
                continue
''', '''                self._release_resource(
                    self.requested_resources,
                    self.origin.resource,
                    self.keep_resources,
                )
                continue
''')]),
    ("bug", SH, [('''        yield from self.pre_process(args_data)

        activity_log''', '''        yield from self.pre_process(args_data)
        amount = self.amount or amount

        activity_log''')]),
    ("bug", SH, [('''            if self.origin.container.get_level(self.id_) < amount:
                # someone''', '''            if self.destination.container.get_level(self.id_) < amount:
                # someone''')]),
    ("bug", PS, [('        if destination_max_amount <= 0:\n', '        if destination_max_amount == 0:\n')]),
    ("bug", PS, [('''        if origin_max_amount <= 0:
            raise ValueError(''', '''        if origin_max_amount <= 0:
            return 0
        if origin_max_amount != origin_max_amount:
            raise ValueError(''')]),
    ("bug", PS, [("            new_amount = min(amount, new_amount)\n", "            new_amount = min(max(amount, 1), new_amount)\n")]),
    ("bug", SH, [('''            self.origin, self.destination, self.amount, self.id_
        )

        all_available''', '''            self.origin, self.destination, self.amount, self.id_
        )
        if self.origin.resource in self.requested_resources:
            amount = self.amount

        all_available''')]),
    ("same", SH, [('''            if self.origin.container.get_level(self.id_) < amount:
                # someone removed / added content while we were requesting the
                # processor, so abort and wait for available
                # space/content again
                self._release_resource(
                    self.requested_resources,
                    self.processor.resource,
                )
                continue
''', '''            if not self._enough(amount):
                self._release_resource(
                    self.requested_resources,
                    self.processor.resource,
                )
                continue
'''), ('''    def _shift_amount(
''', '''    def _enough(self, amount):
        return self.origin.container.get_level(self.id_) >= amount

    def _shift_amount(
''')]),
    ("same", SH, [('''                self._release_resource(
                    self.requested_resources,
                    self.processor.resource,
                )
                self._release_resource(
                    self.requested_resources,
                    self.origin.resource,
                )
                continue
''', '''                for resource in (self.processor.resource, self.origin.resource):
                    self._release_resource(self.requested_resources, resource)
                continue
''')]),
    ("same", PS, [('''        new_amount = min(origin_max_amount, destination_max_amount)
        if amount is not None:
            new_amount = min(amount, new_amount)

        return new_amount''', '''        bounds = [origin_max_amount, destination_max_amount]
        if amount is not None:
            bounds.append(amount)

        return min(bounds)''')]),
    ("same", PS, [('''        destination_max_amount = dest_cont.get_capacity(id_) - dest_cont.get_level(id_)
        if destination_max_amount <= 0:
''', '''        capacity, level = dest_cont.get_capacity(id_), dest_cont.get_level(id_)
        destination_max_amount = capacity - level
        if level >= capacity:
''')]),
    ("same", SH, [('''        amount = self.processor.determine_processor_amount(
            self.origin, self.destination, self.amount, self.id_
        )

        all_available = False
        while not all_available and amount > 0:
            amount = self.processor.determine_processor_amount(
                self.origin, self.destination, self.amount, self.id_
            )
''', '''        transfer = (self.origin, self.destination, self.amount, self.id_)
        amount = self.processor.determine_processor_amount(*transfer)

        all_available = False
        while not all_available and amount > 0:
            amount = self.processor.determine_processor_amount(*transfer)
''')]),
    ("same", SH, [('''        all_available = False
        while not all_available and amount > 0:
''', '''        waiting = True
        while waiting and amount > 0:
'''), ("            all_available = True\n", "            waiting = False\n")]),
]
CASES = [c for i, c in enumerate(CASES) if i not in [23, 27]]
