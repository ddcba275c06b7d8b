S, P, L = "model/shift_amount_activity.py", "core/processor.py", "core/locatable.py"
A1 = "        assert self.processor.is_at(self.origin), msg\n"
A2 = "        assert self.destination.is_at(self.origin)\n"
B1, B2 = "        assert self.is_at(origin)\n", "        assert destination.is_at(origin)\n"
REQ = "        yield from self._request_resource(\n            self.requested_resources, self.destination.resource\n        )\n"
CASES = [
    ("bug", S, [(A1, "")]),
    ("bug", S, [(A2, "")]),
    ("bug", S, [(A2, "        assert self.destination.is_at(self.destination)\n")]),
    ("bug", S, [(A2, "        assert self.destination.is_at(self.processor)\n"), (A1, "        assert self.processor.is_at(self.destination), msg\n")]),
    ("bug", S, [(A2, "        assert self.destination.is_at(self.origin, tolerance=1000)\n")]),
    ("bug", S, [(A1 + A2, ""), (REQ, REQ + A1 + A2)]),
    ("bug", S, [(A1 + A2, "        if self.duration is None:\n            assert self.processor.is_at(self.origin)\n            assert self.destination.is_at(self.origin)\n")]),
    ("bug", S, [(A1 + A2, "        assert self.processor.is_at(self.origin) or self.destination.is_at(self.origin)\n")]),
    ("bug", P, [(B1, "")]),
    ("bug", P, [(B2, "")]),
    ("bug", P, [(B2, "        if not destination.is_at(origin):\n            logger.warning('far')\n")]),
    ("bug", P, [(B1 + B2, ""), ("        duration, amount = shiftamount_fcn(origin, destination)\n", B1 + B2 + "        duration, amount = shiftamount_fcn(origin, destination)\n")]),
    ("bug", P, [(B2, "        assert origin is destination or destination.is_at(destination)\n")]),
    ("bug", L, [("distance < tolerance", "distance > tolerance")]),
    ("bug", L, [("distance < tolerance", "distance <= tolerance")]),
    ("bug", L, [("tolerance=100", "tolerance=1000")]),
    ("bug", L, [("current_location.x, current_location.y,", "current_location.y, current_location.x,")]),
    ("bug", L, [("_, _, distance =", "_, distance, _ =")]),
    ("bug", L, [("other_location.x, other_location.y", "other_location.x, current_location.y")]),
    ("bug", L, [("distance < tolerance", "distance < tolerance * 2")]),
    ("bug", L, [('ellps="WGS84"', 'ellps="sphere"')]),
    ("bug", L, [("shape(locatable.geometry)", "shape(self.geometry)")]),
    ("bug", L, [("        return distance < tolerance", "        return distance < tolerance or self.node == locatable.node")]),
    ("bug", P, [(B1, "        assert self.is_at(origin) or self.is_at(destination)\n")]),
    ("same", S, [(A1 + A2, A2 + A1)]),
    ("same", S, [(A1 + A2, "        self._check_places(msg)\n"), ("    def _shift_amount(\n", "    def _check_places(self, msg):\n        if not self.processor.is_at(self.origin):\n            raise AssertionError(msg)\n        if not self.origin.is_at(self.destination):\n            raise AssertionError('far')\n\n    def _shift_amount(\n")]),
    ("same", P, [(B1 + B2, "        assert all(obj.is_at(origin) for obj in (self, destination))\n")]),
    ("same", P, [(B1 + B2, "        for obj in (self, destination):\n            assert obj.is_at(origin)\n")]),
    ("same", P, [(B1 + B2, "        at_origin = self.is_at(origin)\n        dest_at_origin = destination.is_at(origin)\n        assert at_origin and dest_at_origin\n")]),
    ("same", L, [("        return distance < tolerance", "        if distance >= tolerance:\n            return False\n        return True")]),
    ("same", L, [("        return distance < tolerance", "        return bool(tolerance > distance)")]),
    ("same", L, [("        _, _, distance = self.wgs84.inv(\n            current_location.x, current_location.y, other_location.x, other_location.y\n        )\n", "        result = self.wgs84.inv(\n            other_location.x, other_location.y, current_location.x, current_location.y\n        )\n        distance = result[2]\n")]),
    ("same", L, [("        self.wgs84 = pyproj", "        self.wgs84 = WGS"), ("WGS.Geod(ellps=\"WGS84\")", "WGS"), ("\n\nclass Loc", "\nWGS = pyproj.Geod(ellps=\"WGS84\")\n\n\nclass Loc")]),
]

M, I = "core/movable.py", "core/identifiable.py"
PP = "        yield from self.pre_process(args_data)\n\n        activity_log.log_entry_v1(\n            t=env.now,\n            activity_id=activity_log.id,\n            activity_state=core.LogState.START,\n        )\n\n        start_shift"
LOCRET = "        return distance < tolerance\n"
CUR = "        current_location = shapely.geometry.shape(self.geometry)\n"
OTH = "        other_location = shapely.geometry.shape(locatable.geometry)\n"
BASEPY = "model/base_activities.py"
CASES += [
    # blind: is_at
    ("bug", L, [(CUR, "        if locatable is self:\n            return True\n        if getattr(locatable, \"name\", None) == getattr(self, \"name\", None):\n            return True\n" + CUR)]),
    ("bug", L, [(CUR, "        if self.geometry is None or locatable.geometry is None:\n            return True\n" + CUR)]),
    ("bug", L, [(CUR, "        if self.node is not None and self.node == getattr(locatable, \"node\", None):\n            return True\n" + CUR)]),
    ("bug", L, [(CUR, "        if self.geometry.equals_exact(locatable.geometry, tolerance=0.01):\n            return True\n" + CUR)]),
    ("bug", L, [(LOCRET, "        return round(distance, -2) < tolerance\n")]),
    ("bug", L, [(LOCRET, "        return distance / 2 < tolerance\n")]),
    ("bug", L, [(LOCRET, "        return distance < abs(tolerance) + 1\n")]),
    ("bug", L, [(CUR + OTH, "        current_location = shapely.geometry.shape(self.geometry).centroid\n        other_location = current_location\n")]),
    ("bug", L, [(CUR + OTH, "        current_location = shapely.geometry.shape(locatable.geometry)\n" + OTH)]),
    ("bug", L, [("        _, _, distance = self.wgs84.inv(\n            current_location.x, current_location.y, other_location.x, other_location.y\n        )\n", "        distance = current_location.distance(other_location)\n")]),
    ("bug", L, [("        _, _, distance = self.wgs84.inv(\n            current_location.x, current_location.y, other_location.x, other_location.y\n        )\n", "        distance = current_location.distance(other_location) * 111000\n")]),
    ("bug", L, [("        self.wgs84 = pyproj.Geod(ellps=\"WGS84\")\n", "        self.wgs84 = pyproj.Geod(a=6378.137, f=1 / 298.257)\n")]),
    ("bug", L, [("        self.wgs84 = pyproj.Geod(ellps=\"WGS84\")\n", "        self.wgs84 = pyproj.Geod(ellps=\"WGS84\", b=6000000)\n")]),
    ("bug", L, [(CUR, "        tolerance = max(tolerance, 500)\n" + CUR)]),
    ("bug", L, [(LOCRET, "        self.geometry = locatable.geometry if distance < tolerance else self.geometry\n        return distance < tolerance\n")]) if False else
    ("bug", L, [(LOCRET, "        return not distance > tolerance\n")]),
    ("bug", L, [("        self.geometry = geometry\n        # an", "        self.geometry = geometry\n        self.is_at = lambda locatable, tolerance=100: True\n        # an")]),
    # overriding is_at
    ("bug", P, [("    def process(\n", "    def is_at(self, locatable, tolerance=100):\n        return True\n\n    def process(\n")]),
    ("bug", M, [("    def move(\n", "    def is_at(self, locatable, tolerance=1000):\n        return super().is_at(locatable, tolerance)\n\n    def move(\n")]),
    ("bug", M, [("    def move_to_geometry(", "    def is_at(self, locatable, tolerance=100):\n        if self.node is not None and self.node == locatable.node:\n            return True\n        return super().is_at(locatable, tolerance)\n\n    def move_to_geometry(")]),
    ("bug", M, [("class Movable(Locatable, PerformsActivity, Log):\n", "class Movable(Locatable, PerformsActivity, Log):\n    tolerance = 100\n\n    def is_at(self, locatable, tolerance=None):\n        return super().is_at(locatable, tolerance or self.tolerance * self.engine_order)\n")]) if False else
    ("bug", "core/container.py", [("    def get_state(self):\n", "    def is_at(self, locatable, tolerance=100):\n        return locatable.geometry is not None\n\n    def get_state(self):\n")]),
    # activity
    ("bug", S, [(A1, "        assert self.processor.is_at(self.origin) or self.keep_resources, msg\n")]),
    ("bug", S, [(A1, "        if self.phase == \"loading\":\n            assert self.processor.is_at(self.origin), msg\n")]),
    ("bug", S, [(A2, "        assert (self.destination.is_at, self.origin)\n")]),
    ("bug", S, [(A2, "        assert self.destination.is_at\n")]),
    ("bug", S, [(A1, "        assert (self.processor.is_at(self.origin), msg)\n")]),
    ("bug", S, [(A1 + A2, "        try:\n            assert self.processor.is_at(self.origin), msg\n            assert self.destination.is_at(self.origin)\n        except AssertionError as e:\n            warnings.warn(str(e))\n")]),
    ("bug", S, [(A1 + A2, "        assert any([self.processor.is_at(self.origin), self.destination.is_at(self.origin)]), msg\n")]),
    ("bug", S, [(A2, ""), ("        start_time = env.now\n        args_data", A2 + "        start_time = env.now\n        args_data")]),
    ("bug", S, [(A2, "        if self.destination is not self.processor:\n            assert self.destination.is_at(self.origin)\n        else:\n            assert self.destination.is_at(self.destination)\n")]) if False else
    ("bug", S, [(A1, "        if not self.requested_resources:\n            assert self.processor.is_at(self.origin), msg\n")]),
    ("bug", S, [(A1, "        yield env.timeout(0)\n" + A1)]) if False else
    ("bug", S, [(A1, "        self.processor.log_entry_v1(env.now, activity_log.id, core.LogState.START)\n" + A1)]),
    ("bug", S, [(A1, "        self.processor.geometry = self.origin.geometry\n" + A1)]),
    ("bug", S, [(A1 + A2, "        if not self.processor.is_at(self.origin):\n            yield from self.processor.move(self.origin)\n" + A1 + A2)]),
    # processor
    ("bug", P, [(B1 + B2, "        assert self.is_at(origin) and self.is_at(destination) or destination.name == self.name\n")]),
    ("same", P, [(B1, "        if self is not destination:\n            assert self.is_at(origin)\n")]),
    ("bug", P, [(B2, "        if isinstance(self, LoadingFunction):\n            assert destination.is_at(origin)\n")]),
    ("bug", P, [(B1, "        self.geometry = origin.geometry\n" + B1)]),
    ("bug", P, [(B2, "        assert destination.is_at(origin, self.activity_id is None or 500)\n")]),
    ("bug", P, [(B1 + B2, "        if __debug__ and logger.isEnabledFor(logging.DEBUG):\n            assert self.is_at(origin)\n            assert destination.is_at(origin)\n")]),
    ("bug", P, [(B1 + B2, "        for obj in {self, destination} - {origin, destination}:\n            assert obj.is_at(origin)\n")]),
    ("bug", P, [(B1 + B2, "        assert [self.is_at(origin), destination.is_at(origin)]\n")]),
    ("bug", P, [(B1 + B2, "        assert (self.is_at(origin) for o in (self, destination))\n")]),
    ("bug", P, [(B1 + B2, "        origin.container.get(0)\n        if not (self.is_at(origin) or destination.is_at(origin)):\n            raise AssertionError\n")]),
    # edits
    ("same", L, [(CUR + OTH, "        shape = shapely.geometry.shape\n        current_location, other_location = shape(self.geometry), shape(locatable.geometry)\n")]),
    ("same", L, [(CUR + OTH + "        _, _, distance = self.wgs84.inv(\n            current_location.x, current_location.y, other_location.x, other_location.y\n        )\n\n" + LOCRET,
        "        return self.distance_to(locatable) < tolerance\n\n    def distance_to(self, locatable):\n        here = shapely.geometry.shape(self.geometry)\n        there = shapely.geometry.shape(locatable.geometry)\n        return self.wgs84.inv(here.x, here.y, there.x, there.y)[2]\n")]),
    ("same", L, [(CUR + OTH + "        _, _, distance = self.wgs84.inv(\n            current_location.x, current_location.y, other_location.x, other_location.y\n        )\n",
        "        points = [shapely.geometry.shape(g) for g in (self.geometry, locatable.geometry)]\n        result = self.wgs84.inv(points[0].x, points[0].y, points[1].x, points[1].y)\n        distance = result[-1]\n")]),
    ("same", L, [("            current_location.x, current_location.y, other_location.x, other_location.y\n", "            other_location.x, other_location.y, current_location.x, current_location.y\n")]),
    ("same", L, [(LOCRET, "        return distance - tolerance < 0\n")]),
    ("same", L, [(LOCRET, "        at_location = True\n        if distance >= tolerance:\n            at_location = False\n        return at_location\n")]),
    ("same", L, [("tolerance=100)", "tolerance=TOLERANCE)"), ("\n\nclass Loc", "\nTOLERANCE = 100\n\n\nclass Loc")]),
    ("same", L, [(CUR, "        # the distance over the ellipsoid\n        lon, lat = None, None\n" + CUR)]),
    ("same", L, [("    _, _, distance = self.wgs84.inv(\n            current_location.x, current_location.y, other_location.x, other_location.y\n        )\n", "    azimuth, back_azimuth, distance = self.wgs84.inv(\n            lons1=current_location.x, lats1=current_location.y, lons2=other_location.x, lats2=other_location.y\n        )\n")]),
    ("same", S, [(A1 + A2, "        at_origin = self.processor.is_at(self.origin)\n        if not at_origin:\n            raise AssertionError(msg)\n        if not self.destination.is_at(self.origin):\n            raise AssertionError(\"destination is not at the origin\")\n")]),
    ("same", S, [(A1 + A2, "        for obj, text in ((self.processor, msg), (self.destination, None)):\n            assert obj.is_at(self.origin), text\n")]),
    ("same", S, [(A1 + A2, "        origin = self.origin\n        assert self.processor.is_at(origin), msg\n        assert self.destination.is_at(origin), f\"{self.destination.name} is not at {origin.name}\"\n")]),
    ("same", S, [(A1 + A2, "        self.assert_location(self.processor, msg)\n        self.assert_location(self.destination)\n"), ("    def _shift_amount(\n", "    def assert_location(self, obj, msg=None):\n        \"\"\"Raise when obj is not at the origin.\"\"\"\n        assert obj.is_at(self.origin), msg\n\n    def _shift_amount(\n")]),
    ("same", P, [(B1 + B2, "        self._check_locations(origin, destination)\n"), ("    def check_possible_shift(", "    def _check_locations(self, origin, destination):\n        assert self.is_at(origin), f\"{self.name} is not at {origin.name}\"\n        assert destination.is_at(origin)\n\n    def check_possible_shift(")]),
    ("same", P, [(B1 + B2, "        misplaced = [obj.name for obj in (self, destination) if not obj.is_at(origin)]\n        assert not misplaced, f\"{misplaced} not at {origin.name}\"\n")]),
    ("same", P, [(B1 + B2, "        if not (self.is_at(origin) and destination.is_at(origin)):\n            raise AssertionError(\"all objects have to be at the origin\")\n")]),
    ("same", P, [(B1 + B2, "        assert not any(not obj.is_at(origin) for obj in [self, destination])\n")]),
    ("same", P, [(B1 + B2, "        assert self.is_at(origin)\n        if destination is not self:\n            assert destination.is_at(origin)\n")]),
]
