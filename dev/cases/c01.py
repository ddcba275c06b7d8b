P = "core/processor.py"
S = "model/shift_amount_activity.py"
PUT = '''        # Put the amount in the destination
        yield from self.check_possible_shift(
            origin=origin,
            destination=destination,
            amount=amount,
            activity="put",
            reserved_amount=reserved_amount,
            id_=id_,
        )
'''
GET = '''        # Get the amount from the origin
        yield from self.check_possible_shift(
            origin=origin,
            destination=destination,
            amount=amount,
            activity="get",
            reserved_amount=reserved_amount,
            id_=id_,
        )
'''
TO = "        yield self.env.timeout(duration, value=self.activity_id)\n"
ST = "        duration, amount = shiftamount_fcn(origin, destination)\n"
YM = '''        yield method(
            amount,
            id_,
        )
'''
CASES = [
    ("bug", P, [(TO + PUT, PUT + TO)]),
    ("bug", P, [(GET + TO, TO + GET)]),
    ("bug", P, [(PUT, PUT.replace("amount=amount,", "amount=reserved_amount,"))]),
    ("bug", P, [(YM, YM.replace("id_,", '"default",'))]),
    ("bug", P, [(YM, '''        yield method(
            amount if activity == "get" else min(amount, obj.container.get_capacity(id_) - obj.container.get_level(id_)),
            id_,
        )
''')]),
    ("bug", P, [(YM, YM.replace("yield ", ""))]),
    ("bug", P, [(ST, ST + '        _, put_amount = shiftamount_fcn(origin, destination)\n'), (PUT, PUT.replace("amount=amount,", "amount=put_amount,"))]),
    ("bug", S, [("id_=self.id_)\n        elif self.phase == \"unload", "id_=self.id_)\n        elif self.phase == \"unload"), ("            id_=self.id_,\n        )\n\n    def _get", "        )\n\n    def _get")]),
    ("bug", S, [("(self.duration, amount)", "(self.duration, self.amount or amount)")]),
    ("bug", P, [('obj_map = {"get": origin, "put": destination}', 'obj_map = {"get": origin, "put": self}')]),
    ("bug", P, [(TO, "        yield self.env.timeout(duration * amount, value=self.activity_id)\n")]),
    ("bug", P, [(TO, "        if duration > 1:\n            yield self.env.timeout(duration, value=self.activity_id)\n")]),
    ("same", P, [('''        obj_map = {"get": origin, "put": destination}
        obj = obj_map[activity]
        method = getattr(obj.container, activity)
''', '''        if activity == "get":
            obj = origin
            method = origin.container.get
        else:
            obj = destination
            method = destination.container.put
''')]),
    ("same", P, [(GET, '''        shift = dict(origin=origin, destination=destination, amount=amount, reserved_amount=reserved_amount, id_=id_)
        yield from self.check_possible_shift(activity="get", **shift)
'''), (PUT, '''        yield from self.check_possible_shift(activity="put", **shift)
''')]),
    ("same", P, [(TO, "        shift_done = self.env.timeout(duration, value=self.activity_id)\n        yield shift_done\n")]),
    ("same", P, [(ST, "        result = shiftamount_fcn(origin, destination)\n        duration = result[0]\n        amount = result[1]\n")]),
    ("same", S, [("return lambda origin, destination: (self.duration, amount)", '''
            def fixed_duration(origin, destination):
                return self.duration, amount

            return fixed_duration''')]),
    ("same", S, [("return partial(self.processor.loading, amount=amount, id_=self.id_)", '''return lambda origin, destination: self.processor.loading(
                origin, destination, amount, self.id_
            )''')]),
    ("same", P, [(YM, "        change = method(amount, id_)\n        yield change\n")]),
    ("same", P, [(ST, "        shift_duration, shifted = shiftamount_fcn(origin, destination)\n        duration, amount = shift_duration, shifted\n")]),
]

CC = "core/events_container.py"
CASES += [
    ("bug", P, [(GET, GET.replace("amount=amount,", "amount=min(amount, reserved_amount),"))]),
    ("bug", CC, [('store_status["level"] = store_status["level"] + amount', 'store_status["level"] = min(store_status["level"] + amount, store_status["capacity"])')]),
    ("bug", CC, [('store_status["level"] = store_status["level"] - amount', 'store_status["level"] = max(store_status["level"] - amount, 0)')]),
    ("bug", CC, [('store_status = super().get(lambda state: state["id"] == id_).value\n        store_status["level"] = store_status["level"] - amount', 'store_status = super().get(lambda state: state["id"].startswith(id_)).value\n        store_status["level"] = store_status["level"] - amount')]),
    ("bug", P, [("        start_time = self.env.now\n", "        start_time = self.env.now\n        if activity == \"get\":\n            amount = min(amount, obj.container.get_level(id_))\n")]),
    ("bug", P, [(TO, "        if not duration:\n            return\n" + TO)]),
    ("bug", P, [(TO, ""), (GET, "        yield self.env.timeout(duration / 2, value=self.activity_id)\n" + GET + "        yield self.env.timeout(duration / 2, value=self.activity_id)\n")]),
    ("bug", P, [(TO, "        started = self.env.now\n" + TO), (PUT, "        if self.env.now > started or origin is not self:\n" + "".join("    " + l + "\n" for l in PUT.splitlines()))]),
    ("bug", P, [(PUT, PUT + "        if self.is_at(origin) and amount < reserved_amount:\n            yield destination.container.put(reserved_amount - amount, id_)\n")]),
    ("bug", P, [(TO, "        yield self.env.timeout(max(duration, 1), value=self.activity_id)\n")]),
    ("bug", P, [(TO, "        yield self.env.timeout(round(duration), value=self.activity_id)\n")]),
    ("bug", S, [("            id_=self.id_,\n        )\n\n    def _get", "        )\n\n    def _get")]),
    ("bug", S, [("        yield from self.processor.process(\n", "        if self.amount is not None:\n            amount = self.amount\n        yield from self.processor.process(\n"), ("        shiftamount_fcn = self._get_shiftamount_fcn(amount)\n\n", ""), ("            shiftamount_fcn=shiftamount_fcn,\n", "            shiftamount_fcn=self._get_shiftamount_fcn(amount),\n")]),
    ("bug", P, [("        method = getattr(obj.container, activity)\n", "        method = getattr(obj.container, activity)\n        if id_ not in obj.container.container_list:\n            id_ = obj.container.container_list[0]\n")]),
    ("same", P, [("        yield method(\n            amount,\n            id_,\n        )\n", ""), ("        end_time = self.env.now\n", "        yield method(amount=amount, id_=id_)\n        end_time = self.env.now\n")]),
    ("same", P, [(ST, "        shift = shiftamount_fcn(origin, destination)\n        amount = shift[1]\n"), (TO, "        yield self.env.timeout(shift[0], value=self.activity_id)\n")]),
    ("same", P, [("    def check_possible_shift(\n", '''    def _elapse(self, duration):
        yield self.env.timeout(delay=duration, value=self.activity_id)

    def check_possible_shift(
'''), (TO, "        yield from self._elapse(duration)\n")]),
    ("same", P, [(GET, '''        for activity in ("get", "put"):
            yield from self.check_possible_shift(
                origin, destination, amount, activity, reserved_amount, id_
            )
            if activity == "get":
                yield self.env.timeout(duration, value=self.activity_id)
'''), (TO + PUT, "")]),
    ("same", CC, [('''        store_status = super().get(lambda state: state["id"] == id_).value
        store_status["level"] = store_status["level"] + amount
        put_event = super().put(store_status)
        put_event.callbacks.append(self._callback)

        return put_event
''', '''        return self._change(amount, id_)

    def _change(self, amount, id_):
        store_status = super().get(lambda state: state["id"] == id_).value
        store_status["level"] += amount
        changed = super().put(store_status)
        changed.callbacks.append(self._callback)
        return changed
'''), ('''        store_status = super().get(lambda state: state["id"] == id_).value
        store_status["level"] = store_status["level"] - amount
        get_event = super().put(store_status)
        get_event.callbacks.append(self._callback)

        return get_event
''', "        return self._change(-amount, id_)\n")]),
    ("same", P, [('''        # Put the amount in the destination
''', '''        remaining = reserved_amount - amount
        logger.debug("%s left of the booking", remaining)
''')]),
    ("same", S, [('''            return lambda origin, destination: (self.duration, amount)
        elif self.phase == "loading":
            return partial(self.processor.loading, amount=amount, id_=self.id_)
        elif self.phase == "unloading":
            return partial(self.processor.unloading, amount=amount, id_=self.id_)
        else:
            raise''', '''            return lambda *args: (self.duration, amount)
        if self.phase in ("loading", "unloading"):
            function = getattr(self.processor, self.phase)
            return partial(function, amount=amount, id_=self.id_)
        else:
            raise''')]),
]
