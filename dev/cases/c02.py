P = "core/processor.py"
S = "model/shift_amount_activity.py"
COR = '''        yield method(
            amount - reserved_amount,
            f"{id_}_reservations",
        )
'''
RES = '''        self.destination.container.put(
            amount=self.reserved_amount,
            id_=f"{self.id_}_reservations",
        )
        self.origin.container.get(
            amount=self.reserved_amount,
            id_=f"{self.id_}_reservations",
        )'''
DET = '''            amount
            if amount
            else min(
                origin.container.get_capacity(id_),
                destination.container.get_capacity(id_),
            )
'''
CASES = [
    ("bug", P, [(COR, COR.replace("amount - reserved_amount", "reserved_amount - amount"))]),
    ("bug", P, [(COR, '        if activity == "get":\n    ' + COR.replace("\n", "\n    ").rstrip() + "\n")]),
    ("bug", P, [(COR, COR.replace('f"{id_}_reservations"', '"default_reservations"'))]),
    ("bug", S, [(RES, RES.replace("self.origin.container.get(", "self.origin.container.put("))]),
    ("bug", S, [(RES, RES.replace('''        self.origin.container.get(
            amount=self.reserved_amount,''', '''        self.origin.container.get(
            amount=self.amount or 0,'''))]),
    ("bug", P, [(DET, DET.replace("min(", "max("))]),
    ("bug", P, [(DET, DET.replace("destination.container.get_capacity", "destination.container.get_level"))]),
    ("bug", P, [(DET, DET.replace("            amount\n", "            min(amount, origin.container.get_level(id_))\n"))]),
    ("bug", S, [("            reserved_amount=self.reserved_amount,", "            reserved_amount=self.amount,")]),
    ("bug", S, [("    def make_container_reservation(self):\n", "    def make_container_reservation(self):\n        if hasattr(self, 'reserved_amount'):\n            return\n")]),
    ("bug", P, [(COR, '        if amount < reserved_amount:\n    ' + COR.replace("\n", "\n    ").rstrip() + "\n")]),
    ("bug", S, [(RES, RES.replace('f"{self.id_}_reservations"', '"default_reservations"'))]),
    ("same", P, [(COR, '        correction = amount - reserved_amount\n        yield method(amount=correction, id_=id_ + "_reservations")\n')]),
    ("same", P, [(COR, '        if amount != reserved_amount:\n    ' + COR.replace("\n", "\n    ").rstrip() + "\n")]),
    ("same", P, [("        return (\n" + DET + "        )", '''        if amount:
            return amount
        capacities = [x.container.get_capacity(id_) for x in (origin, destination)]
        return min(capacities)''')]),
    ("same", P, [("        return (\n" + DET + "        )", '''        if amount is None:
            amount = min(destination.container.get_capacity(id_), origin.container.get_capacity(id_))
        return amount''')]),
    ("same", S, [(RES, '''        booking = {"amount": self.reserved_amount, "id_": f"{self.id_}_reservations"}
        self.origin.container.get(**booking)
        self.destination.container.put(**booking)''')]),
    ("same", S, [(RES, '''        reservation_id = "{}_reservations".format(self.id_)
        for change in (self.destination.container.put, self.origin.container.get):
            change(amount=self.reserved_amount, id_=reservation_id)''')]),
]

CC = "core/events_container.py"
BA = "model/base_activities.py"
PS = "core/processor.py"
SH = "model/shift_amount_activity.py"
CASES += [
    ("bug", BA, [('        if hasattr(self, "make_container_reservation"):\n', '        if hasattr(self, "make_container_reservation") and not hasattr(self, "main_process"):\n')]),
    ("bug", BA, [('''        # Make container reservations
        if hasattr(self, "make_container_reservation"):
            self.make_container_reservation()

''', ""), ('''        additional_logs = getattr(self, "additional_logs", [])
''', '''        additional_logs = getattr(self, "additional_logs", [])
        if hasattr(self, "make_container_reservation"):
            self.make_container_reservation()
''')]),
    ("bug", BA, [('        if hasattr(self, "make_container_reservation"):\n', '        if hasattr(self, "make_container_reservation") and self.start_event is None:\n')]),
    ("bug", PS, [('            if amount\n', '            if amount and amount <= origin.container.get_capacity(id_)\n')]),
    ("bug", PS, [('            if amount\n', '            if isinstance(amount, int)\n')]),
    ("bug", SH, [('amount=self.amount, id_=self.id_\n        )\n\n        self.dest', 'amount=self.amount\n        )\n\n        self.dest')]),
    ("bug", SH, [('''        self.reserved_amount = self.processor.determine_reservation_amount(
            self.origin, self.destination, amount=self.amount, id_=self.id_
        )
''', '''        self.reserved_amount = self.processor.determine_reservation_amount(
            self.origin, self.destination, amount=self.amount, id_=self.id_
        )
        if self.phase == "unloading":
            return
''')]),
    ("bug", CC, [('store_status["level"] = store_status["level"] + amount', 'store_status["level"] = min(store_status["level"] + amount, store_status["capacity"])')]),
    ("bug", CC, [('store_status["level"] = store_status["level"] - amount', 'store_status["level"] = max(store_status["level"] - amount, 0)')]),
    ("bug", PS, [('''        yield method(
            amount - reserved_amount,
''', '''        yield obj.container.get(
            amount - reserved_amount,
''')]),
    ("bug", PS, [('''        yield method(
            amount - reserved_amount,
''', '''        yield method(
            round(amount - reserved_amount),
''')]),
    ("bug", SH, [('''        amount = self.processor.determine_processor_amount(
            self.origin, self.destination, self.amount, self.id_
        )

        all_available''', '''        amount = self.processor.determine_processor_amount(
            self.origin, self.destination, self.amount, self.id_
        )
        self.reserved_amount = amount

        all_available''')]),
    ("bug", PS, [('                origin.container.get_capacity(id_),\n', '                origin.container.get_capacity(),\n')]),
    ("same", SH, [('''        self.reserved_amount = self.processor.determine_reservation_amount(
            self.origin, self.destination, amount=self.amount, id_=self.id_
        )
''', '''        booked = self.processor.determine_reservation_amount(
            self.origin, self.destination, self.amount, self.id_
        )
        self.reserved_amount = booked
''')]),
    ("same", SH, [('''        self.destination.container.put(
            amount=self.reserved_amount,
            id_=f"{self.id_}_reservations",
        )
        self.origin.container.get(
            amount=self.reserved_amount,
            id_=f"{self.id_}_reservations",
        )''', '''        account = self._reservation_account()
        self.origin.container.get(self.reserved_amount, account)
        self.destination.container.put(self.reserved_amount, account)

    def _reservation_account(self):
        return f"{self.id_}_reservations"''')]),
    ("same", BA, [('''        if hasattr(self, "make_container_reservation"):
            self.make_container_reservation()
''', '''        reserve = getattr(self, "make_container_reservation", None)
        if reserve is not None:
            reserve()
''')]),
    ("same", PS, [('''        return (
            amount
            if amount
            else min(
                origin.container.get_capacity(id_),
                destination.container.get_capacity(id_),
            )
        )''', '''        if amount:
            return amount
        capacities = [
            location.container.get_capacity(id_) for location in (origin, destination)
        ]
        return min(capacities)''')]),
    ("same", PS, [('''        yield method(
            amount,
            id_,
        )
        # Correct the container reservation with the actual amount
        yield method(
            amount - reserved_amount,
            f"{id_}_reservations",
        )
''', '''        # Correct the container reservation with the actual amount
        for value, account in (
            (amount, id_),
            (amount - reserved_amount, f"{id_}_reservations"),
        ):
            yield method(value, account)
''')]),
    ("same", SH, [('''        self.destination.container.put(
            amount=self.reserved_amount,
            id_=f"{self.id_}_reservations",
        )
        self.origin.container.get(
            amount=self.reserved_amount,
            id_=f"{self.id_}_reservations",
        )''', '''        for method in (self.destination.container.put, self.origin.container.get):
            method(amount=self.reserved_amount, id_=f"{self.id_}_reservations")''')]),
]
