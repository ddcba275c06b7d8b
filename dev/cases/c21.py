P = "core/processor.py"
S = "model/shift_amount_activity.py"
L = '''        if not hasattr(self.loading_rate, "__call__"):
            duration = amount / self.loading_rate + self.load_manoeuvring * 60
            return duration, amount
        else:
            loading_time = self.loading_rate(
                destination.container.get_level(id_),
                destination.container.get_level(id_) + amount,
            )
            duration = loading_time + self.load_manoeuvring * 60
            return duration, amount
'''
U = '''        if not hasattr(self.unloading_rate, "__call__"):
            duration = amount / self.unloading_rate + self.unload_manoeuvring * 60
            return duration, amount
        else:
            unloading_time = self.unloading_rate(
                origin.container.get_level(id_),
                origin.container.get_level(id_) - amount,
            )
            duration = unloading_time + self.unload_manoeuvring * 60
            return duration, amount
'''
G = '''        if self.duration is not None:
            return lambda origin, destination: (self.duration, amount)
        elif self.phase == "loading":
            return partial(self.processor.loading, amount=amount, id_=self.id_)
        elif self.phase == "unloading":
            return partial(self.processor.unloading, amount=amount, id_=self.id_)
'''
CALL = "        duration, amount = shiftamount_fcn(origin, destination)\n\n"
GET = '''        yield from self.check_possible_shift(
            origin=origin,
            destination=destination,
            amount=amount,
            activity="get",
            reserved_amount=reserved_amount,
            id_=id_,
        )
'''
CASES = [
    ("bug", P, [(L, L.replace("loading_time + self.load_manoeuvring * 60", "loading_time + self.load_manoeuvring"))]),
    ("bug", P, [(L, L.replace("amount / self.loading_rate + self.load_manoeuvring * 60", "(amount / self.loading_rate + self.load_manoeuvring) * 60"))]),
    ("bug", P, [(L, L.replace("destination.container.get_level(id_) + amount", "origin.container.get_level(id_) + amount"))]),
    ("bug", P, [(U, U.replace("origin.container.get_level(id_),\n                origin.container.get_level(id_) - amount", "origin.container.get_level(id_) - amount,\n                origin.container.get_level(id_)"))]),
    ("bug", P, [(U, U.replace("origin.container.get_level(id_) - amount", "origin.container.get_level() - amount"))]),
    ("bug", P, [(U, U.replace("self.unload_manoeuvring * 60\n            return duration, amount\n        else", "self.unload_manoeuvring * 60\n            return duration, int(amount)\n        else"))]),
    ("bug", S, [(G, G.replace("if self.duration is not None:", "if self.duration:"))]),
    ("bug", S, [(G, G.replace("self.processor.unloading, amount=amount, id_=self.id_", "self.processor.loading, amount=amount, id_=self.id_"))]),
    ("bug", S, [(G, G.replace("unloading, amount=amount, id_=self.id_", "unloading, amount=amount"))]),
    ("bug", P, [(CALL, ""), (GET, GET.replace("amount=amount", "amount=shiftamount_fcn(origin, destination)[1]") + CALL)]),
    ("bug", S, [(G, G.replace('elif self.phase == "unloading"', "else").replace("            return partial(self.processor.unloading", "            return partial(self.processor.unloading") + "        if False:\n            pass\n")]),
    ("bug", P, [("        self.load_manoeuvring = load_manoeuvring\n", "        self.load_manoeuvring = load_manoeuvring if callable(loading_rate) else 0\n")]),
    ("bug", P, [(U, U.replace("amount / self.unloading_rate", "amount // self.unloading_rate"))]),
    ("bug", P, [(CALL, CALL + "        duration = max(duration, 1)\n")]),
    ("bug", S, [("        self.duration = duration\n", "        self.duration = duration if phase is None else None\n")]),
    ("same", P, [(L, '''        if callable(self.loading_rate):
            level = destination.container.get_level(id_)
            duration = self.loading_rate(level, level + amount)
        else:
            duration = amount / self.loading_rate
        return duration + 60 * self.load_manoeuvring, amount
''')]),
    ("same", P, [(U, '''        duration = self.unload_manoeuvring * 60
        rate = self.unloading_rate
        if hasattr(rate, "__call__"):
            before = origin.container.get_level(id_)
            after = before - amount
            duration += rate(before, after)
        else:
            duration += amount / rate
        return duration, amount
''')]),
    ("same", S, [(G, '''        if self.duration is None and self.phase == "loading":
            return partial(self.processor.loading, amount=amount, id_=self.id_)
        elif self.duration is None and self.phase == "unloading":
            return partial(self.processor.unloading, amount=amount, id_=self.id_)
        elif self.duration is not None:
            return lambda origin, destination: (self.duration, amount)
''')]),
    ("same", S, [(G, '''        if self.duration is not None:

            def fixed(origin, destination):
                return self.duration, amount

            return fixed
        elif self.phase == "loading":
            method = self.processor.loading
        elif self.phase == "unloading":
            method = self.processor.unloading
'''), ('''                "shiftamount activity are undefined. At least one is required!"
            )
''', '''                "shiftamount activity are undefined. At least one is required!"
            )
        return partial(method, amount=amount, id_=self.id_)
''')]),
    ("same", S, [(G, G.replace("partial(self.processor.loading, amount=amount, id_=self.id_)", "lambda origin, destination: self.processor.loading(origin, destination, amount, self.id_)"))]),
    ("same", P, [(CALL, "        result = shiftamount_fcn(origin=origin, destination=destination)\n        duration = result[0]\n        amount = result[1]\n\n")]),
    ("same", P, [(L, '        return self._loading_time(destination, amount, id_) + self.load_manoeuvring * 60, amount\n\n    def _loading_time(self, destination, amount, id_):\n        rate = self.loading_rate\n        if not hasattr(rate, "__call__"):\n            return amount / rate\n        level = destination.container.get_level(id_)\n        return rate(level, level + amount)\n')]),
]

PP = "core/processor.py"
SS = "model/shift_amount_activity.py"
CASES += [
    ("bug", PP, [("            duration = amount / self.loading_rate + self.load_manoeuvring * 60\n", "            duration = amount / self.loading_rate + self.load_manoeuvring\n")]),
    ("bug", PP, [("            duration = amount / self.unloading_rate + self.unload_manoeuvring * 60\n", "            duration = (amount + self.unload_manoeuvring * 60) / self.unloading_rate\n")]),
    ("bug", PP, [('''                origin.container.get_level(id_),
                origin.container.get_level(id_) - amount,
''', '''                origin.container.get_level(id_) - amount,
                origin.container.get_level(id_),
''')]),
    ("bug", PP, [('''                destination.container.get_level(id_) + amount,
''', '''                min(destination.container.get_level(id_) + amount, destination.container.get_capacity()),
''')]),
    ("bug", PP, [('''            duration = unloading_time + self.unload_manoeuvring * 60
            return duration, amount''', '''            duration = max(unloading_time, self.unload_manoeuvring * 60)
            return duration, amount''')]),
    ("bug", SS, [("        if self.duration is not None:\n            return lambda", "        if self.duration:\n            return lambda")]),
    ("bug", SS, [("partial(self.processor.unloading, amount=amount, id_=self.id_)", "partial(self.processor.loading, amount=amount, id_=self.id_) if hasattr(self.processor, 'loading') else partial(self.processor.unloading, amount=amount, id_=self.id_)")]),
    ("bug", SS, [('''        else:
            raise RuntimeError(''', '''        elif hasattr(self.processor, "loading"):
            return partial(self.processor.loading, amount=amount, id_=self.id_)
        else:
            raise RuntimeError(''')]),
    ("bug", SS, [("        self.duration = duration\n", "        self.duration = duration * 60 if duration else duration\n")]),
    ("bug", PP, [("        self.load_manoeuvring = load_manoeuvring\n", "        self.load_manoeuvring = int(load_manoeuvring)\n")]),
    ("bug", "core/events_container.py", [('''        res = [item["level"] for item in self.items if item["id"] == id_]
''', '''        res = [item["level"] for item in self.items if item["id"].startswith(id_)][::-1]
''')]),
    ("same", PP, [('''        if not hasattr(self.loading_rate, "__call__"):
            duration = amount / self.loading_rate + self.load_manoeuvring * 60
            return duration, amount
        else:
            loading_time = self.loading_rate(
                destination.container.get_level(id_),
                destination.container.get_level(id_) + amount,
            )
            duration = loading_time + self.load_manoeuvring * 60
            return duration, amount
''', '''        if callable(self.loading_rate):
            level = destination.container.get_level(id_)
            loading_time = self.loading_rate(level, level + amount)
        else:
            loading_time = amount / self.loading_rate
        return 60 * self.load_manoeuvring + loading_time, amount
''')]),
    ("same", SS, [('''            return lambda origin, destination: (self.duration, amount)
        elif self.phase == "loading":
            return partial(self.processor.loading, amount=amount, id_=self.id_)
        elif self.phase == "unloading":
            return partial(self.processor.unloading, amount=amount, id_=self.id_)
        else:
            raise RuntimeError(''', '''            return lambda origin, destination: (self.duration, amount)
        functions = {"loading": "loading", "unloading": "unloading"}
        if self.phase in functions:
            return partial(getattr(self.processor, functions[self.phase]), amount=amount, id_=self.id_)
        else:
            raise RuntimeError(''')]),
    ("same", SS, [('''            return lambda origin, destination: (self.duration, amount)
''', '''            duration = self.duration
            return lambda origin, destination: (duration, amount)
''')]),
]
