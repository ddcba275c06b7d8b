M = "core/movable.py"
V = "        return self._v * self.engine_order\n"
CV = '''        return self.engine_order * self.compute_v(
            self.container.get_level() / self.container.get_capacity()
        )
'''
MV = '''        sum_level = 0
        sum_capacity = 0
        for id_ in self.container.container_list:
            sum_level += self.container.get_level(id_)
            sum_capacity += self.container.get_capacity(id_)
        fill_degree = sum_level / sum_capacity
        return self.engine_order * self.compute_v(fill_degree)
'''
DIS = '''        orig = shapely.geometry.shape(origin)
        dest = shapely.geometry.shape(destination)
        _, _, distance = WGS84.inv(orig.x, orig.y, dest.x, dest.y)
        return distance
'''
DU = '''        distance = self.compute_distance(origin, destination)
        return distance / (self.v * engine_order)
'''
CASES = [
    ("bug", M, [(V, V.replace("* self.engine_order", "/ self.engine_order"))]),
    ("bug", M, [(V, "        return self._v\n")]),
    ("bug", M, [(CV, CV.replace("self.engine_order * ", ""))]),
    ("bug", M, [(CV, CV.replace("self.container.get_level() / self.container.get_capacity()", "1 - self.container.get_level() / self.container.get_capacity()"))]),
    ("bug", M, [(MV, MV.replace("sum_level += self.container.get_level(id_)", "sum_level = self.container.get_level(id_)"))]),
    ("bug", M, [(MV, MV.replace("self.container.get_capacity(id_)", "self.container.get_capacity()"))]),
    ("bug", M, [(MV, MV.replace("sum_level / sum_capacity", "self.container.get_level() / sum_capacity"))]),
    ("bug", M, [(MV, MV.replace("self.engine_order * self", "self"))]),
    ("bug", M, [(DIS, DIS.replace("orig.x, orig.y, dest.x, dest.y", "orig.y, orig.x, dest.y, dest.x"))]),
    ("bug", M, [(DIS, DIS.replace("_, _, distance", "_, distance, _"))]),
    ("bug", M, [(DIS, DIS.replace("dest.x, dest.y", "dest.x, orig.y"))]),
    ("bug", M, [(DU, DU.replace("(self.v * engine_order)", "self.v * engine_order"))]),
    ("bug", M, [(DU, DU.replace("(self.v * engine_order)", "self.v"))]),
    ("bug", M, [(DU, DU.replace("self.v *", "self._v *"))]),
    ("bug", M, [(DU, DU.replace("(origin, destination)", "(self.geometry, destination)"))]),
    ("bug", M, [('WGS84 = pyproj.Geod(ellps="WGS84")', 'WGS84 = pyproj.Geod(ellps="sphere")')]),
    ("bug", M, [("        self._v = v\n", "        self._v = max(v, 1)\n")]),
    ("bug", M, [(MV, MV.replace("self.container.container_list", "[item['id'] for item in self.container.items]").replace("sum_level += self.container.get_level(id_)", "sum_level += self.container.get_level(id_) / 1"))]),
    ("same", M, [(MV, '''        ids = self.container.container_list
        level = sum(self.container.get_level(i) for i in ids)
        capacity = sum(self.container.get_capacity(i) for i in ids)
        return self.compute_v(level / capacity) * self.engine_order
''')]),
    ("same", M, [(DU, "        speed = self.v * engine_order\n        return self.compute_distance(origin, destination) / speed\n")]),
    ("same", M, [(DU, "        return self.compute_distance(origin=origin, destination=destination) / self.v / engine_order\n")]),
    ("same", M, [(DIS, "        a, b = (shapely.geometry.shape(g) for g in (origin, destination))\n        return WGS84.inv(a.x, a.y, b.x, b.y)[2]\n")]),
    ("same", M, [(CV, "        c = self.container\n        fill = c.get_level() / c.get_capacity()\n        v_max = self.compute_v(fill)\n        return v_max * self.engine_order\n")]),
    ("same", M, [(V, "        order = self.engine_order\n        return order * self._v\n"), ])
    , ("bug", M, [(MV, MV.replace("self.container.container_list", "self.conainter_ids"))]),
    ("same", M, [(MV, '''        totals = [self.container.get_level(i) for i in self.container.container_list]
        caps = [self.container.get_capacity(i) for i in self.container.container_list]
        return self.engine_order * self.compute_v(sum(totals) / sum(caps))
''')]),
    ("same", M, [("        self._v = v\n", "        self._speed = v\n"), (V, V.replace("_v", "_speed"))]),
]

V = "core/movable.py"
CASES += [
    ("bug", V, [("WGS84.inv(orig.x, orig.y, dest.x, dest.y)", "WGS84.inv(orig.y, orig.x, dest.y, dest.x)")]),
    ("bug", V, [('WGS84 = pyproj.Geod(ellps="WGS84")', 'WGS84 = pyproj.Geod(ellps="sphere")')]),
    ("bug", V, [("        return distance / (self.v * engine_order)", "        return distance / (self._v * engine_order)")]),
    ("bug", V, [("        return distance / (self.v * engine_order)", "        return distance / self.v * engine_order")]),
    ("bug", V, [("        fill_degree = sum_level / sum_capacity\n", "        fill_degree = min(sum_level / sum_capacity, 1)\n")]),
    ("bug", V, [("            sum_capacity += self.container.get_capacity(id_)\n", "            sum_capacity += self.container.get_capacity()\n")]),
    ("bug", V, [("        for id_ in self.container.container_list:\n", "        for id_ in self.conainter_ids[:1]:\n")]),
    ("bug", V, [("self.container.get_level() / self.container.get_capacity()", "self.container.get_level() // self.container.get_capacity()")]),
    ("bug", "core/events_container.py", [('''            if not item["id"].endswith("_reservations")
''', '''            if not item["id"].endswith("_reservations") and item["level"] > 0
''')]),
    ("bug", V, [("        _, _, distance = WGS84.inv(orig.x, orig.y, dest.x, dest.y)\n        return distance\n", "        _, _, distance = WGS84.inv(orig.x, orig.y, dest.x, dest.y)\n        return round(distance)\n")]),
    ("bug", "core/events_container.py", [('''        res = [item["level"] for item in self.items if item["id"] == id_]
''', '''        res = [item["level"] for item in self.items if item["id"].startswith(id_)][::-1]
''')]),
    ("same", V, [('''        sum_level = 0
        sum_capacity = 0
        for id_ in self.container.container_list:
            sum_level += self.container.get_level(id_)
            sum_capacity += self.container.get_capacity(id_)
        fill_degree = sum_level / sum_capacity
''', '''        ids = self.container.container_list
        sum_level = sum(self.container.get_level(id_) for id_ in ids)
        sum_capacity = sum(self.container.get_capacity(id_) for id_ in ids)
        fill_degree = sum_level / sum_capacity
''')]),
    ("same", V, [('''        return self.engine_order * self.compute_v(
            self.container.get_level() / self.container.get_capacity()
        )
''', '''        fill_degree = self.container.get_level() / self.container.get_capacity()
        return self.compute_v(fill_degree) * self.engine_order
''')]),
    ("same", V, [('''        _, _, distance = WGS84.inv(orig.x, orig.y, dest.x, dest.y)
        return distance
''', '''        return WGS84.inv(orig.x, orig.y, dest.x, dest.y)[2]
''')]),
    ("same", V, [('''        distance = self.compute_distance(origin, destination)
        return distance / (self.v * engine_order)''', '''        speed = self.v * engine_order
        return self.compute_distance(origin, destination) / speed''')]),
]
