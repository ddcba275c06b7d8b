W = "plugins/weather.py"
EL = '''            elif t < determined_range[0]:'''
ASR = '''        try:
            assert (maximum is not None) or (minimum is not None)
            if minimum is not None:
                assert maximum is None
            if maximum is not None:
                assert minimum is None
        except Exception as e:
            raise AssertionError(
                "One and only one of the parameters minimum or maximum can be "
                f"defined (error message: {e})."
            )
'''
CASES = [
    ("bug", W, [(EL, "            elif t <= determined_range[1]:")]),
    ("bug", W, [("waiting = determined_range[0] - t", "waiting = determined_range[1] - t")]),
    ("bug", W, [("waiting = determined_range[0] - t", "waiting = determined_range[0]")]),
    ("bug", W, [("start_time=t)", "start_time=t + self.weather_criteria.window_delay)")]),
    ("bug", W, [("            if minimum is not None:\n                assert maximum is None\n            if maximum is not None:\n                assert minimum is None\n", "")]),
    ("bug", W, [("            assert (maximum is not None) or (minimum is not None)\n", "")]),
    ("bug", W, [("orig_data = self.metocean_df.copy()", "orig_data = self.metocean_df"), ("data = orig_data.copy()", "data = orig_data")]),
    ("bug", W, [("(data[col] <= threshold[col])", "(data[col] < threshold[col])")]),
    ("bug", W, [("data[col] < threshold[col], \"type\"", "data[col] <= threshold[col], \"type\"")]),
    ("bug", W, [("self.minimum = minimum", "self.minimum = minimum or 0")]),
    ("bug", W, [("self.window_delay = window_delay", "self.window_delay = abs(window_delay)")]),
    ("bug", W, [("metocean_criteria is not None\n            and metocean_df is not None", "metocean_criteria is None\n            and metocean_df is not None")]),
    ("bug", W, [('"ref": "waiting on weather"', '"ref": "weather"')]),
    ("bug", W, [(EL, "            elif t < determined_range[0] - 3600:")]),
    ("bug", W, [("orig_data = self.metocean_df.copy()", "orig_data = self.metocean_df"), ("data = orig_data.copy()", "orig_data.sort_values('ts', inplace=True)\n        data = orig_data.copy()")]),
    ("bug", W, [("orig_data[col].min() >= threshold[col]", "orig_data[col].min() > threshold[col]")]),
    ("same", W, [(ASR, '''        if (maximum is None) == (minimum is None):
            raise AssertionError("One and only one of the parameters minimum or maximum can be defined.")
''')]),
    ("same", W, [("t = float(env.now)", "t = env.now")]),
    ("same", W, [('''        if self.weather_criteria is not None:
            t = float(env.now)''', '''        if self.weather_criteria is None:
            return {}
        else:
            t = float(env.now)'''), ('''            else:
                return {}
        else:
            return {}

    def check''', '''            else:
                return {}

    def check''')]),
    ("same", W, [("(data[col] <= threshold[col])", "~(data[col] > threshold[col])")]),
    ("same", W, [('''                waiting = determined_range[0] - t
                return''', '''                window_start = determined_range[0]
                waiting = window_start - t
                return''')]),
    ("same", W, [("orig_data = self.metocean_df.copy()", "orig_data = self.metocean_df")]),
    ("same", W, [('''            threshold = {col: criterion.maximum}
''', '''            limit = criterion.maximum
            threshold = {col: limit}
'''), ("orig_data[col].max() <= threshold[col]", "limit >= orig_data[col].max()")]),
    ("same", W, [(ASR, '''        limits = [x for x in (minimum, maximum) if x is not None]
        if len(limits) != 1:
            raise AssertionError("One and only one of the parameters minimum or maximum can be defined.")
''')]),
]

W = "plugins/weather.py"
BA = "model/base_activities.py"
CASES += [
    ("bug", W, [("            elif t < determined_range[0]:\n", "            elif t + self.weather_criteria.window_delay < determined_range[0]:\n")]),
    ("bug", W, [("waiting = determined_range[0] - t\n", "waiting = determined_range[1] - t\n")]),
    ("bug", W, [("            t = float(env.now)\n", "            t = float(int(env.now / 60) * 60)\n")]),
    ("bug", W, [('data["cur"] & (data[col] >= threshold[col])', 'data["cur"] & (data[col] > threshold[col])')]),
    ("bug", W, [("            if orig_data[col].min() >= threshold[col]:\n", "            if orig_data[col].min() > threshold[col]:\n")]),
    ("bug", W, [('            data.loc[data[col] < threshold[col], "type"] = "end"\n', '            data.loc[data[col] <= threshold[col], "type"] = "end"\n')]),
    ("bug", W, [("        orig_data = self.metocean_df.copy()\n", "        orig_data = self.metocean_df\n        orig_data[\"ts\"] = orig_data[\"ts\"].astype(float)\n")]),
    ("bug", BA, [("        yield env.timeout(waiting, value=activity_log.id)\n        activity_log", "        yield env.timeout(round(waiting), value=activity_log.id)\n        activity_log")]),
    ("bug", W, [("                assert maximum is None\n", "                assert maximum is None or maximum > minimum\n")]),
    ("bug", W, [('{"type": "plugin", "ref": "waiting on weather"}', '{"type": "plugin", "ref": "delay"}')]),
    ("bug", W, [("        data = orig_data.copy()\n", "        data = orig_data = self.metocean_df\n")]),
    ("bug", W, [("                return activity.delay_processing(\n                    env, activity_label, activity_log, waiting\n                )\n", "                if waiting > 60:\n                    return activity.delay_processing(\n                        env, activity_label, activity_log, waiting\n                    )\n                return {}\n")]),
    ("same", W, [('''                activity_label = {"type": "plugin", "ref": "waiting on weather"}
                waiting = determined_range[0] - t
                return activity.delay_processing(
                    env, activity_label, activity_log, waiting
                )
            else:
                return {}
''', '''                window_start = determined_range[0]
                return activity.delay_processing(
                    env,
                    {"type": "plugin", "ref": "waiting on weather"},
                    activity_log,
                    window_start - t,
                )
            return {}
''')]),
    ("same", W, [('''        if self.weather_criteria is not None:
            t = float(env.now)
''', '''        if self.weather_criteria is None:
            return {}
        else:
            t = float(env.now)
''')]),
    ("same", W, [('''        try:
            assert (maximum is not None) or (minimum is not None)
            if minimum is not None:
                assert maximum is None
            if maximum is not None:
                assert minimum is None
        except Exception as e:
            raise AssertionError(
                "One and only one of the parameters minimum or maximum can be "
                f"defined (error message: {e})."
            )
''', '''        if (maximum is None) == (minimum is None):
            raise AssertionError(
                "One and only one of the parameters minimum or maximum can be defined."
            )
''')]),
]
CASES = [c for i, c in enumerate(CASES) if i not in [32, 37]]
