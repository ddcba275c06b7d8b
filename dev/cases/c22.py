L = "core/log.py"
ST = "        object_state = self.get_state()\n        if additional_state:\n            object_state.update(additional_state)\n"
TS = "datetime.datetime.utcfromtimestamp(t)"
AP = "        self.logbook.append(entry)\n\n    def log_entry_v0"
LAB = '''        if activity_label is None:
            activity_label = {}
        else:
            # if an activity_label is passed
            assert activity_label.get("type") is not None
            assert activity_label.get("ref") is not None
'''
DROP = "        df = df.drop(columns=columns_to_drop)\n"
CASES = [
    ("bug", L, [(TS, "datetime.datetime.fromtimestamp(t)")]),
    ("bug", L, [(TS, "datetime.datetime.utcfromtimestamp(int(t))")]),
    ("bug", L, [(TS, "datetime.datetime.utcfromtimestamp(self.env.now)")]),
    ("bug", L, [('"ActivityState": activity_state.name', '"ActivityState": activity_state')]),
    ("bug", L, [('"ActivityLabel": activity_label,', '"ActivityLabel": {},')]),
    ("bug", L, [("        if additional_state:\n            object_state.update(additional_state)\n", "")]),
    ("bug", L, [("        if additional_state:\n            object_state.update(additional_state)\n", "        if additional_state and not object_state:\n            object_state.update(additional_state)\n")]),
    ("bug", L, [(AP, "        if self.logbook and self.logbook[-1] == entry:\n            return\n" + AP)]),
    ("bug", L, [(AP, "        self.logbook.insert(0, entry)\n\n    def log_entry_v0")]),
    ("bug", L, [(AP, AP.replace("append(entry)", "append(entry)\n        self.logbook.sort(key=lambda x: x['Timestamp'])"))]),
    ("bug", L, [('df = df.dropna(how="all")', 'df = df.dropna()')]),
    ("bug", L, [('df = df.dropna(how="all")', 'df = df.drop_duplicates(subset=["Timestamp", "ActivityID"])')]),
    ("bug", L, [('df = df.dropna(how="all")', 'df = df.sort_values("Timestamp")')]),
    ("bug", L, [("df = pd.DataFrame(self.logbook)\n", "df = pd.DataFrame(self.logbook[1:])\n")]),
    ("bug", L, [('            "ObjectState",\n            "ActivityLabel",\n        ]', '            "ObjectState",\n        ]')]),
    ("bug", L, [("        df = pd.DataFrame(self.logbook)\n", "        self.logbook.sort(key=lambda e: e['Timestamp'])\n        df = pd.DataFrame(self.logbook)\n")]),
    ("bug", "model/base_activities.py", [("        self.done_event = self.env.event()\n        if hasattr", "        self.done_event = self.env.event()\n        self.logbook = []\n        if hasattr")]),
    ("bug", "plot/log_dataframe.py", [("def get_log_dataframe(", "def _drop(o):\n    lb = o.logbook\n    lb.pop()\n\n\ndef get_log_dataframe(")]),
    ("bug", L, [("activity_label = {}\n        else", "activity_label = None\n        else")]),
    ("bug", L, [('            "ActivityID": activity_id,\n            "ActivityState": activity_state.name', '            "ActivityID": self.activity_id if hasattr(self, "activity_id") else activity_id,\n            "ActivityState": activity_state.name')]),
    ("same", L, [(ST, "        object_state = {**self.get_state(), **(additional_state or {})}\n")]),
    ("same", L, [(ST, "        state = self.get_state()\n        if additional_state is not None:\n            state.update(additional_state)\n"), ('"ObjectState": object_state', '"ObjectState": state')]),
    ("same", L, [(TS, "datetime.datetime.fromtimestamp(t, tz=datetime.timezone.utc).replace(tzinfo=None)")]),
    ("same", L, [(TS, "datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)")]),
    ("same", L, [(AP, "        self._add(entry)\n\n    def _add(self, entry):\n        self.logbook.append(entry)\n\n    def log_entry_v0")]),
    ("same", L, [(LAB, '''        if activity_label is not None:
            for key in ("type", "ref"):
                assert activity_label.get(key) is not None
        label = {} if activity_label is None else activity_label
'''), ('"ActivityLabel": activity_label,', '"ActivityLabel": label,')]),
    ("same", L, [(DROP, "        df = df.drop(columns=[c for c in df.columns if c not in columns])\n")]),
    ("same", L, [('        df = df.dropna(how="all")\n', '        df = df.dropna(how="all").copy()\n')]),
    ("same", L, [('        datetimes = pd.Series(\n            [x.to_pydatetime() for x in df["Timestamp"].tolist()], dtype=object\n        )\n\n        df["Timestamp"] = datetimes\n', '        stamps = []\n        for x in df["Timestamp"].tolist():\n            stamps.append(x.to_pydatetime())\n        df["Timestamp"] = pd.Series(stamps, dtype=object)\n')]),
    ("same", L, [("        list_format = df.to_dict(orient=\"list\")\n\n        return list_format\n", "        return df.to_dict(orient=\"list\")\n")]),
]

L = "core/log.py"
CASES += [
    ("bug", L, [("datetime.datetime.utcfromtimestamp(t)", "datetime.datetime.fromtimestamp(t)")]),
    ("bug", L, [("datetime.datetime.utcfromtimestamp(t)", "datetime.datetime.utcfromtimestamp(int(t))")]),
    ("bug", L, [("        self.logbook.append(entry)\n\n    def log_entry_v0", "        if not self.logbook or self.logbook[-1] != entry:\n            self.logbook.append(entry)\n\n    def log_entry_v0")]),
    ("bug", L, [("            object_state.update(additional_state)\n", "            object_state = {**additional_state, **object_state}\n")]),
    ("bug", L, [('            "ActivityState": activity_state.name,\n', '            "ActivityState": activity_state.name.replace("WAIT_", ""),\n')]),
    ("bug", L, [("        object_state = self.get_state()\n", "        object_state = self.get_state()\n        if self.logbook and activity_state == LogState.STOP:\n            object_state = self.logbook[-1][\"ObjectState\"]\n")]),
    ("bug", L, [('        df = df.dropna(how="all")\n', '        df = df.dropna(how="any")\n')]),
    ("bug", L, [('        df = df.dropna(how="all")\n', '        df = df.dropna(how="all")\n        df = df.sort_values("Timestamp") if self.logbook else df\n')]),
    ("bug", "model/while_activity.py", [("            self.start_sequence.succeed()\n", "            self.start_sequence.succeed()\n            activity_log.logbook = activity_log.logbook[-1000:]\n")]),
    ("bug", "core/processor.py", [("        end_time = self.env.now\n", "        end_time = self.env.now\n        self.logbook.sort(key=lambda entry: entry[\"Timestamp\"])\n")]),
    ("bug", L, [("        self.logbook = []\n", "        self.logbook = self.__class__.__dict__.get('_logbook', [])\n")]),
    ("same", L, [('''        entry = {
            "Timestamp": datetime.datetime.utcfromtimestamp(t),
            "ActivityID": activity_id,
            "ActivityState": activity_state.name,
            "ObjectState": object_state,
            "ActivityLabel": activity_label,
        }
        self.logbook.append(entry)
''', '''        timestamp = datetime.datetime.utcfromtimestamp(t)
        self.logbook.append(
            dict(
                Timestamp=timestamp,
                ActivityID=activity_id,
                ActivityState=activity_state.name,
                ObjectState=object_state,
                ActivityLabel=activity_label,
            )
        )
''')]),
    ("same", L, [('''        object_state = self.get_state()
        if additional_state:
            object_state.update(additional_state)
''', '''        object_state = {**self.get_state(), **(additional_state or {})}
''')]),
    ("same", L, [('''        if activity_label is None:
            activity_label = {}
        else:
            # if an activity_label is passed
            assert activity_label.get("type") is not None
            assert activity_label.get("ref") is not None
''', '''        if activity_label is not None:
            for key in ("type", "ref"):
                assert activity_label.get(key) is not None
        else:
            activity_label = {}
''')]),
    ("same", L, [('''        self.logbook.append(entry)

    def log_entry_v0''', '''        self._append(entry)

    def _append(self, entry):
        self.logbook.append(entry)

    def log_entry_v0''')]),
    ("same", L, [('''        columns_to_drop = set(df.columns) - set(columns)

        df = df.drop(columns=columns_to_drop)
''', '''        columns_to_drop = [column for column in df.columns if column not in columns]

        df = df.drop(columns=columns_to_drop)
''')]),
]
