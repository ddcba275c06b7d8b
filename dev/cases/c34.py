M = "core/movable.py"
O1 = "        if distance_from_start > distance_from_end:\n            coords = np.flipud(np.array(geometry.coords))\n        else:\n            coords = geometry.coords\n        new_geometry = shapely.geometry.LineString(coords)\n        return new_geometry\n"
PL = "        self.geometry = a\n        yield self.env.timeout(duration)\n        self.geometry = b\n"
MG = "        linestring = shapely.geometry.LineString([self.geometry, geometry])\n        distance = WGS84.geometry_length(linestring)\n        duration = distance / self.v\n        yield self.env.timeout(duration)\n        self.geometry = geometry\n"
HK = "            for pass_edge_function in self.on_pass_edge_functions:\n                yield pass_edge_function(\n                    movable=self, a=a, b=b, route=route, geometry=edge_geometry\n                )\n"
DU = "        distance = WGS84.geometry_length(geometry)\n        duration = distance / self.v\n"
CASES = [
    ("bug", M, [(MG, MG.replace("distance / self.v", "distance / self._v"))]),
    ("bug", M, [(MG, MG.replace("distance / self.v", "distance / (self.v * self.engine_order)"))]),
    ("bug", M, [(MG, MG.replace("        self.geometry = geometry\n", ""))]),
    ("bug", M, [(MG, MG.replace("        yield self.env.timeout(duration)\n        self.geometry = geometry\n", "        self.geometry = geometry\n        yield self.env.timeout(duration)\n"))]),
    ("bug", M, [(MG, MG.replace("WGS84.geometry_length(linestring)", "linestring.length"))]),
    ("bug", M, [(DU, DU.replace("distance / self.v", "distance * self.v"))]),
    ("bug", M, [(DU, DU.replace("WGS84.geometry_length(geometry)", "self.compute_distance(a, b)"))]),
    ("bug", M, [(DU, DU.replace("WGS84.geometry_length(geometry)", "WGS84.geometry_length(shapely.geometry.LineString([a, b]))"))]),
    ("bug", M, [(PL, PL.replace("self.geometry = b", "self.geometry = a"))]),
    ("bug", M, [(PL, PL.replace("self.geometry = a", "self.geometry = b"))]),
    ("bug", M, [("distance_from_start > distance_from_end", "distance_from_start < distance_from_end")]),
    ("bug", M, [("WGS84.inv(end.x, end.y, a.x, a.y)", "WGS84.inv(end.x, end.y, start.x, start.y)")]),
    ("bug", M, [("            coords = np.flipud(np.array(geometry.coords))\n", "            coords = np.array(geometry.coords)\n")]),
    ("bug", M, [("            edge_geometry = self.order_geometry(edge_geometry, a_geometry)\n", "")]),
    ("bug", M, [("self.order_geometry(edge_geometry, a_geometry)", "self.order_geometry(edge_geometry, b_geometry)")]),
    ("bug", M, [("        yield from self.move_to_geometry(a_geometry)\n", "")]),
    ("bug", M, [("        yield from self.move_to_geometry(a_geometry)\n", "        self.move_to_geometry(a_geometry)\n")]),
    ("bug", M, [("            self.geometry = b_geometry\n            self.node = b", "            self.geometry = b_geometry")]),
    ("bug", M, [("            self.geometry = b_geometry\n            self.node = b", "            self.geometry = a_geometry\n            self.node = b")]),
    ("bug", M, [(HK, HK + "                break\n")]),
    ("bug", M, [(HK, "            if i:\n" + HK.replace("            for", "                for").replace("                yield", "                    yield").replace("                    mov", "                        mov"))]),
    ("bug", M, [(HK, HK.replace("a=a, b=b", "a=b, b=a"))]),
    ("bug", M, [("enumerate(pairwise(route))", "enumerate(pairwise(route[1:]))")]),
    ("bug", M, [("enumerate(pairwise(route))", "enumerate(pairwise(sorted(route)))")]),
    ("bug", M, [("            yield from self.pass_linestring(edge_geometry)\n", "            if a != b and i < len(route) - 2:\n                yield from self.pass_linestring(edge_geometry)\n")]),
    ("bug", M, [("                total_distance += WGS84", "                total_distance = WGS84")]),
    ("bug", M, [("                total_distance += WGS84", "                total_distance += 2 * WGS84")]),
    ("bug", M, [("zip(self.route[:-1], self.route[1:])", "zip(self.route[:-2], self.route[1:])")]),
    ("bug", M, [("frac_distance = abs(a - b) / self.path.length", "frac_distance = (a - b) / self.path.length")]),
    ("same", M, [(O1, "        reverse = distance_from_end < distance_from_start\n        coords = list(geometry.coords)\n        if reverse:\n            coords = coords[::-1]\n        return shapely.geometry.LineString(coords)\n")]),
    ("same", M, [(O1, "        if not distance_from_start > distance_from_end:\n            return shapely.geometry.LineString(geometry.coords)\n        return shapely.geometry.LineString(list(reversed(geometry.coords)))\n")]),
    ("same", M, [(MG, MG.replace("        distance = WGS84.geometry_length(linestring)\n        duration = distance / self.v\n        yield self.env.timeout(duration)\n", "        yield self.env.timeout(WGS84.geometry_length(linestring) / self.v)\n"))]),
    ("same", M, [(MG, "        yield from self._sail(shapely.geometry.LineString([self.geometry, geometry]))\n        self.geometry = geometry\n"), (DU, ""), (PL, "        self.geometry = a\n        yield from self._sail(geometry)\n        self.geometry = b\n\n    def _sail(self, line):\n        distance = WGS84.geometry_length(line)\n        yield self.env.timeout(distance / self.v)\n")]),
    ("same", M, [("enumerate(pairwise(route))", "enumerate(zip(route[:-1], route[1:]))")]),
    ("same", M, [("for i, (a, b) in enumerate(pairwise(route))", "for a, b in zip(route, route[1:])")]),
    ("same", M, [(HK, "            yield from self._passed(a, b, route, edge_geometry)\n"), ("    @staticmethod\n    def order_geometry(", "    def _passed(self, a, b, route, geometry):\n        for function in self.on_pass_edge_functions:\n            event = function(movable=self, a=a, b=b, route=route, geometry=geometry)\n            yield event\n\n    @staticmethod\n    def order_geometry(")]),
    ("same", M, [("            for a, b in zip(self.route[:-1], self.route[1:]):\n                e = (a, b)\n                edge = self.env.graph.edges[e]\n                total_distance += WGS84.geometry_length(edge[\"geometry\"])\n            return total_distance", "            return sum(\n                WGS84.geometry_length(self.env.graph.edges[a, b][\"geometry\"])\n                for a, b in pairwise(self.route)\n            )")]),
    ("same", M, [("            return frac_distance * total_distance", "            return total_distance * frac_distance")]),
]

EDGE = "            edge_geometry = self.env.graph.edges[(a, b)][\"geometry\"]\n"
PASS = "            yield from self.pass_linestring(edge_geometry)\n"
ORD = "            edge_geometry = self.order_geometry(edge_geometry, a_geometry)\n"
ARR = "            self.geometry = b_geometry\n            self.node = b"
LOOP = "        for i, (a, b) in enumerate(pairwise(route)):\n"
BAD = "            a_geometry = self.env.graph.nodes[a][\"geometry\"]\n"
MTG = "        yield from self.move_to_geometry(a_geometry)\n"
ROUTEL = "            for a, b in zip(self.route[:-1], self.route[1:]):\n                e = (a, b)\n                edge = self.env.graph.edges[e]\n                total_distance += WGS84.geometry_length(edge[\"geometry\"])\n            return total_distance\n"
CASES += [
    # move_to_geometry
    ("bug", M, [(MG, MG.replace("        yield self.env.timeout(duration)\n", "        if duration > 1:\n            yield self.env.timeout(duration)\n"))]),
    ("bug", M, [(MG, MG.replace("        yield self.env.timeout(duration)\n", "        yield self.env.timeout(int(duration))\n"))]),
    ("bug", M, [(MG, MG.replace("        yield self.env.timeout(duration)\n", "        yield self.env.timeout(max(duration, 60))\n"))]),
    ("bug", M, [(MG, MG.replace("        linestring =", "        if self.geometry == geometry:\n            return\n        if self.node is not None:\n            self.geometry = geometry\n            return\n        linestring ="))]),
    ("bug", M, [(MG, MG.replace("distance / self.v", "distance / self.v * 1.852"))]),
    ("bug", M, [(MG, MG.replace("distance / self.v", "distance / (self._v + self.engine_order)"))]),
    ("bug", M, [(MG, MG.replace("[self.geometry, geometry]", "[geometry, geometry]"))]),
    ("bug", M, [(MG, MG.replace("distance / self.v", "distance // self.v"))]),
    ("bug", M, [(MG, MG.replace("self.geometry = geometry\n", "self.geometry = linestring.centroid\n"))]),
    ("bug", M, [("WGS84 = pyproj.Geod(ellps=\"WGS84\")", "WGS84 = pyproj.Geod(ellps=\"sphere\")")]),
    ("bug", M, [("WGS84 = pyproj.Geod(ellps=\"WGS84\")", "WGS84 = pyproj.Geod(a=6371000, b=6371000)")]),
    ("bug", M, [("    @property\n    def v(self):\n        \"\"\"return the velocity * engine_order\"\"\"\n        return self._v * self.engine_order\n", "    @property\n    def v(self):\n        \"\"\"return the velocity * engine_order\"\"\"\n        return self._v * min(self.engine_order, 1)\n")]) if False else
    ("bug", M, [("    def move_to_geometry(", "    @property\n    def v(self):\n        return self._v\n\n    def move_to_geometry(")]),
    ("bug", M, [("        self._v = v\n        self.engine_order = engine_order\n", "        self._v = v * engine_order\n        self.engine_order = engine_order\n")]),
    ("bug", M, [("        self._v = v\n        self.engine_order = engine_order\n", "        self._v = v\n        self.engine_order = 1\n")]),
    # pass_linestring
    ("bug", M, [(DU, "        distance = WGS84.geometry_length(geometry.simplify(0.001))\n        duration = distance / self.v\n")]),
    ("bug", M, [(DU, "        distance = WGS84.geometry_length(geometry.convex_hull)\n        duration = distance / self.v\n")]),
    ("bug", M, [(DU, "        distance = sum(WGS84.geometry_length(shapely.geometry.LineString([p, q])) for p, q in zip(geometry.coords[:-2], geometry.coords[1:-1]))\n        duration = distance / self.v\n")]),
    ("bug", M, [(PL, "        self.geometry = a\n        yield self.env.timeout(duration / 2)\n        self.geometry = b\n")]),
    ("bug", M, [(PL, "        self.geometry = a\n        yield self.env.timeout(duration)\n        yield self.env.timeout(duration)\n        self.geometry = b\n")]),
    ("bug", M, [(PL, "        self.geometry = a\n        if a != b:\n            yield self.env.timeout(duration)\n        self.geometry = b\n")]),
    ("bug", M, [("        b = shapely.geometry.Point(geometry.coords[-1])\n", "        b = shapely.geometry.Point(geometry.coords[1])\n")]),
    ("bug", M, [("        b = shapely.geometry.Point(geometry.coords[-1])\n", "        b = geometry.interpolate(1)\n")]),
    ("bug", M, [(PL, PL + "        self.engine_order = 1\n")]),
    # order_geometry
    ("bug", M, [("        _, _, distance_from_start = WGS84.inv(start.x, start.y, a.x, a.y)\n        _, _, distance_from_end = WGS84.inv(end.x, end.y, a.x, a.y)\n", "        distance_from_start, _, _ = WGS84.inv(start.x, start.y, a.x, a.y)\n        distance_from_end, _, _ = WGS84.inv(end.x, end.y, a.x, a.y)\n")]),
    ("bug", M, [("distance_from_start > distance_from_end", "distance_from_start - distance_from_end > 100")]),
    ("bug", M, [("distance_from_start > distance_from_end", "distance_from_start > 0")]),
    ("bug", M, [("distance_from_start > distance_from_end", "distance_from_end == 0")]),
    ("bug", M, [("distance_from_start > distance_from_end", "distance_from_start > distance_from_end and len(geometry.coords) > 2")]),
    ("bug", M, [("np.flipud(np.array(geometry.coords))", "np.fliplr(np.array(geometry.coords))")]),
    ("bug", M, [("np.flipud(np.array(geometry.coords))", "[geometry.coords[-1], geometry.coords[0]]")]),
    ("bug", M, [("np.flipud(np.array(geometry.coords))", "np.flipud(np.array(geometry.coords))[1:]")]),
    ("bug", M, [("np.flipud(np.array(geometry.coords))", "np.flipud(np.flipud(np.array(geometry.coords)))")]),
    ("bug", M, [("            coords = geometry.coords\n", "            coords = geometry.coords[:2]\n")]),
    ("bug", M, [("        start = shapely.geometry.Point(*geometry.coords[0])\n", "        start = shapely.geometry.Point(*geometry.coords[1])\n")]),
    ("bug", M, [("        new_geometry = shapely.geometry.LineString(coords)\n", "        new_geometry = shapely.geometry.LineString(sorted(map(tuple, coords)))\n")]),
    # move_over_route
    ("bug", M, [(LOOP, "        for i, (a, b) in enumerate(zip(route[::2], route[1::2])):\n")]),
    ("bug", M, [(LOOP, "        for i, (a, b) in enumerate(pairwise(dict.fromkeys(route))):\n")]),
    ("bug", M, [(LOOP, LOOP + "            if a == b:\n                continue\n")]) if False else
    ("bug", M, [(LOOP, LOOP + "            if not self.env.graph.has_edge(a, b):\n                continue\n")]),
    ("bug", M, [(LOOP, LOOP + "            if self.node == b:\n                continue\n")]),
    ("bug", M, [(EDGE, "            edge_geometry = self.env.graph.edges[(route[0], route[1])][\"geometry\"]\n")]),
    ("bug", M, [(EDGE, "            edge_geometry = self.env.graph.edges[(b, a)][\"geometry\"]\n"), ("        self.on_pass_edge_functions: List[Callable] = []\n", "        self.on_pass_edge_functions: List[Callable] = []\n        self.n = 0\n"), (PASS, PASS + "            if i == 3:\n                return\n")]),
    ("bug", M, [(PASS, "            if edge_geometry.length > 0 and len(edge_geometry.coords) < 100:\n    " + PASS)]),
    ("bug", M, [(PASS, "            yield from self.move_to_geometry(b_geometry)\n")]),
    ("bug", M, [(PASS, "            yield self.env.timeout(0)\n" + PASS)]) if False else
    ("bug", M, [(PASS, PASS + PASS)]),
    ("bug", M, [(HK, HK.replace("self.on_pass_edge_functions", "self.on_pass_edge_functions[:1]"))]),
    ("bug", M, [(HK, HK.replace("self.on_pass_edge_functions", "set(self.on_pass_edge_functions)"))]),
    ("bug", M, [(HK, HK.replace("                yield pass_edge_function(", "                pass_edge_function("))]),
    ("bug", M, [(HK, "            if edge_geometry is not None and b != route[-1]:\n" + "".join("    " + x + "\n" for x in HK.splitlines()))]),
    ("bug", M, [(HK, HK.replace("geometry=edge_geometry", "geometry=self.geometry"))]),
    ("bug", M, [(HK, HK.replace("route=route", "route=self.route"))]),
    ("bug", M, [(PASS, HK + PASS), ("            # call any other functions we have registered\n" + HK, "")]),
    ("bug", M, [(ARR, "            self.geometry = edge_geometry.centroid\n            self.node = b")]),
    ("bug", M, [(ARR, "            self.geometry = b_geometry\n            if i == len(route) - 2:\n                self.node = b")]),
    ("bug", M, [(ARR, "            self.node = b")]) if False else
    ("bug", M, [(MTG, "        if self.node != a:\n    " + MTG)]),
    ("bug", M, [("        a = route[0]\n        a_geometry", "        a = route[-1]\n        a_geometry")]),
    ("bug", M, [("        self.on_pass_edge_functions: List[Callable] = []\n", "")]) if False else
    ("bug", M, [("        self.on_pass_edge_functions: List[Callable] = []\n", "        self.on_pass_edge_functions = ()\n")]) if False else
    ("bug", M, [("        self.route = route\n        self.path", "        self.route = route[::-1] if route else None\n        self.path")]),
    ("bug", M, [("        self.route = route\n        self.path", "        self.route = list(dict.fromkeys(route)) if route else None\n        self.path")]),
    # compute_distance
    ("bug", M, [(ROUTEL, "            return WGS84.geometry_length(shapely.geometry.LineString([a_geometry, b_geometry]))\n")]),
    ("bug", M, [(ROUTEL, ROUTEL.replace("e = (a, b)", "e = (self.route[0], b)"))]),
    ("bug", M, [(ROUTEL, ROUTEL.replace("                total_distance +=", "                if a_is_origin:\n                    continue\n                total_distance +="))]),
    ("bug", M, [(ROUTEL, ROUTEL.replace("WGS84.geometry_length(edge[\"geometry\"])", "edge[\"geometry\"].length"))]),
    ("bug", M, [(ROUTEL, ROUTEL.replace("return total_distance", "return total_distance / len(self.route)"))]),
    ("bug", M, [("            total_distance = WGS84.geometry_length(self.path)\n", "            total_distance = self.path.length\n")]),
    ("bug", M, [("        if self.path is not None:\n            a = self.path", "        if self.path is not None and self.route is None:\n            a = self.path")]),
    # edits
    ("same", M, [(MG, MG.replace("        duration = distance / self.v\n", "        speed = self.v\n        duration = distance / speed\n"))]),
    ("same", M, [(MG, "        yield self.env.timeout(self._leg_duration(shapely.geometry.LineString([self.geometry, geometry])))\n        self.geometry = geometry\n\n    def _leg_duration(self, line):\n        \"\"\"Time to sail over a line.\"\"\"\n        return WGS84.geometry_length(line) / self.v\n"), (DU, "        duration = self._leg_duration(geometry)\n")]),
    ("same", M, [(PL, "        self.geometry = a\n        sailing = self.env.timeout(duration)\n        yield sailing\n        self.geometry = b\n")]),
    ("same", M, [("        a = shapely.geometry.Point(geometry.coords[0])\n        b = shapely.geometry.Point(geometry.coords[-1])\n        assert isinstance(geometry, shapely.geometry.LineString)\n", "        assert isinstance(geometry, shapely.geometry.LineString)\n        a, b = (shapely.geometry.Point(geometry.coords[i]) for i in (0, -1))\n")]),
    ("same", M, [("        a = shapely.geometry.Point(geometry.coords[0])\n        b = shapely.geometry.Point(geometry.coords[-1])\n        assert", "        coords = list(geometry.coords)\n        a = shapely.geometry.Point(coords[0])\n        b = shapely.geometry.Point(coords[-1])\n        assert")]),
    ("same", M, [(O1, "        coords = list(geometry.coords)\n        if distance_from_start > distance_from_end:\n            coords = coords[::-1]\n        return shapely.geometry.LineString(coords)\n")]),
    ("same", M, [(O1, "        coords = geometry.coords\n        if distance_from_end < distance_from_start:\n            coords = list(reversed(list(coords)))\n        return shapely.geometry.LineString(coords)\n")]),
    ("same", M, [("        _, _, distance_from_start = WGS84.inv(start.x, start.y, a.x, a.y)\n        _, _, distance_from_end = WGS84.inv(end.x, end.y, a.x, a.y)\n", "        distance_from_start = WGS84.inv(start.x, start.y, a.x, a.y)[2]\n        distance_from_end = WGS84.inv(a.x, a.y, end.x, end.y)[2]\n")]),
    ("same", M, [("        _, _, distance_from_start = WGS84.inv(start.x, start.y, a.x, a.y)\n        _, _, distance_from_end = WGS84.inv(end.x, end.y, a.x, a.y)\n", "        distances = [WGS84.inv(p.x, p.y, a.x, a.y)[2] for p in (start, end)]\n        distance_from_start, distance_from_end = distances\n")]),
    ("same", M, [("        new_geometry = shapely.geometry.LineString(coords)\n        return new_geometry\n", "        return shapely.geometry.LineString(coords)\n")]),
    ("same", M, [(LOOP, "        graph = self.env.graph\n        for a, b in pairwise(route):\n"), (BAD, "            a_geometry = graph.nodes[a][\"geometry\"]\n"), (EDGE, "            edge_geometry = graph.edges[a, b][\"geometry\"]\n")]),
    ("same", M, [(LOOP, "        for i in range(len(route) - 1):\n            a, b = route[i], route[i + 1]\n")]),
    ("same", M, [(LOOP + BAD + "            b_geometry = self.env.graph.nodes[b][\"geometry\"]\n" + EDGE, LOOP + "            a_geometry, b_geometry = self._node_geometry(a), self._node_geometry(b)\n" + EDGE), ("    @staticmethod\n    def order_geometry(", "    def _node_geometry(self, node):\n        return self.env.graph.nodes[node][\"geometry\"]\n\n    @staticmethod\n    def order_geometry(")]),
    ("same", M, [(LOOP, "        a = route[0]\n        for b in route[1:]:\n"), (ARR, ARR + "\n            a = b")]),
    ("same", M, [(ARR, "            self.node, self.geometry = b, b_geometry")]),
    ("same", M, [(HK, HK.replace("                yield pass_edge_function(\n", "                event = pass_edge_function(\n") + "                yield event\n")]),
    ("same", M, [(HK, "            info = dict(movable=self, a=a, b=b, route=route, geometry=edge_geometry)\n            for pass_edge_function in self.on_pass_edge_functions:\n                yield pass_edge_function(**info)\n")]),
    ("same", M, [(ROUTEL, "            return sum(\n                WGS84.geometry_length(self.env.graph.edges[e][\"geometry\"])\n                for e in zip(self.route[:-1], self.route[1:])\n            )\n")]),
    ("same", M, [(ROUTEL, ROUTEL.replace("zip(self.route[:-1], self.route[1:])", "pairwise(self.route)"))]),
    ("same", M, [(ROUTEL, "            for a, b in zip(self.route[:-1], self.route[1:]):\n                total_distance += self._edge_length(a, b)\n            return total_distance\n"), ("    def move_to_geometry(", "    def _edge_length(self, a, b):\n        edge = self.env.graph.edges[(a, b)]\n        length = WGS84.geometry_length(edge[\"geometry\"])\n        return length\n\n    def move_to_geometry(")]),
    ("same", M, [(LOOP, LOOP + "            logger.debug(\"edge %s: %s to %s\", i, a, b)\n")]),
    ("same", M, [("            frac_distance = abs(a - b) / self.path.length\n", "            travelled = a - b if a > b else b - a\n            frac_distance = travelled / self.path.length\n")]),
]
CASES = [c for i, c in enumerate(CASES) if i not in [83, 84]]
