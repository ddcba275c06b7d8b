L = "plot/log_dataframe.py"
V = "plot/vessel_planning.py"
S = "plot/step_chart.py"
G = "core/log.py"
ACT = '''    if isinstance(id_map, list):
        # TO DO should in fact be recursive for nested activities
        id_map = {act.id: act.name for act in get_subprocesses(id_map)}
'''
SORT = '''    df = pd.DataFrame(simulation_object.log).sort_values(
        by=["Timestamp"], kind="stable"
    )
'''
COLS = '''            pd.DataFrame(simulation_object.log).filter(["Timestamp", "ActivityState"]),
'''
SEG = '''        if "START" in row["activity_state"] and row["log_string"] == activity:
            start = index
        elif "STOP" in row["activity_state"] and row["log_string"] == activity:
            x.extend((start, start, index, index, index))
            y.extend((y_val, y_val, y_val, y_val, None))
'''
DROP = '''                df.drop(df[df.activity_state == "WAIT_START"].index)
                .drop(df[df.activity_state == "WAIT_STOP"].index)
                .set_index("Timestamp", drop=False)
'''
STEP = '''                if isinstance(list(df["container level"])[0], dict) is False:
                    y = list(df["container level"])
                else:
                    y = [y[container] for y in list(df["container level"])]
'''
PLOT = '''                plt.plot(
                    list(df["Timestamp"]),
                    y,
                    label=f"{obj.name} {container_map.get(container,container)}",
                )
'''
TR = '''        for k, df in enumerate(dataframes):
            y_val = -k if y_scale == "numbers" else names[k]
            x, y = get_segments(df, activity=activity, y_val=y_val)
            x_combined.extend(x)
            y_combined.extend(y)
'''
CASES = [
    # the log table
    ("bug", L, [(', kind="stable"', "")]),
    ("bug", L, [('by=["Timestamp"]', 'by=["Timestamp", "ActivityState"]')]),
    ("bug", L, [("get_subprocesses(id_map)}", "id_map}")]),
    ("bug", L, [("act.id: act.name", "act.name: act.id")]),
    ("bug", L, [('.replace(id_map)', '.replace({})')]),
    ("bug", L, [("isinstance(id_map, dict) and all(hasattr(x, \"id\") for x in id_map.values())", "isinstance(id_map, dict)")]),
    ("bug", L, [('simulation_object.log["ActivityLabel"]', 'simulation_object.log["ObjectState"]')]),
    ("bug", L, [('.filter(["Timestamp", "ActivityState"])', '.filter(["Timestamp"])')]),
    ("bug", L, [("pd.DataFrame(simulation_object.log).sort_values", "pd.DataFrame(simulation_object.log).drop_duplicates(subset=['Timestamp', 'ActivityID']).sort_values")]),
    ("bug", L, [('df.filter(items=["ActivityID"])', 'df.reset_index(drop=True).filter(items=["ActivityID"])')]),
    ("bug", L, [('''                .replace(id_map)
''', '''                .apply(lambda c: c.map(id_map))
''')]),
    ("same", L, [("df.filter(items=[\"ActivityID\"])", "df[[\"ActivityID\"]]")]),
    ("same", L, [(COLS, COLS.replace("pd.DataFrame(simulation_object.log)", "df"))]),
    ("same", L, [("id_map = id_map if id_map else {}", "id_map = id_map or {}")]),
    ("same", L, [(SORT, SORT.replace("pd.DataFrame(simulation_object.log)", "pd.DataFrame(log)")), ("    # a stable", "    log = simulation_object.log\n    # a stable"), ('simulation_object.log["ObjectState"]', 'log["ObjectState"]')]),
    ("same", L, [('''    return pd.concat(
        [''', '''    parts = (
        ['''), ('''        ],
        axis=1,
    )''', '''        ]
    )
    return pd.concat(parts, axis=1)''')]),
    ("same", L, [("id_map = {act.id: act.name for act in get_subprocesses(id_map)}", '''names = {}
        for act in get_subprocesses(id_map):
            names[act.id] = act.name
        id_map = names''')]),
    # segments
    ("bug", V, [("x.extend((start, start, index, index, index))", "x.extend((start, start, index, index))"), ("y_val, y_val, y_val, y_val, None", "y_val, y_val, y_val, y_val")]),
    ("bug", V, [('elif "STOP" in row["activity_state"] and row["log_string"] == activity:', 'elif "STOP" in row["activity_state"]:')]),
    ("bug", V, [('if "START" in row["activity_state"] and row["log_string"] == activity:', 'if "START" in row["activity_state"]:')]),
    ("bug", V, [("            start = index\n", "            start = start or index\n")]),
    ("bug", V, [("x.extend((start, start, index, index, index))\n", "x.extend((start, start, index, index, index))\n            break\n")]),
    ("bug", V, [('"STOP" in row', '"START" in row')]),
    ("same", V, [(SEG, '''        if row["log_string"] != activity:
            continue
        state = row["activity_state"]
        if state == "START":
            start = index
        elif state == "STOP":
            x += [start, start, index, index, index]
            y += [y_val] * 4 + [None]
''')]),
    ("same", V, [(SEG, SEG.replace("(start, start, index, index, index)", "[start, index, index]").replace("(y_val, y_val, y_val, y_val, None)", "[y_val, y_val, None]"))]),
    ("same", V, [(SEG, '''        mine = row["log_string"] == activity
        if mine and "START" in row["activity_state"]:
            start = index
        if mine and "STOP" in row["activity_state"]:
            x.extend((start, start, index, index, index))
            y.extend((y_val, y_val, y_val, y_val, None))
''')]),
    # gantt
    ("bug", V, [('.drop(df[df.activity_state == "WAIT_STOP"].index)\n', '\n')]),
    ("bug", V, [('df.activity_state == "WAIT_START"', 'df.activity_state == "START"')]),
    ("bug", V, [('get_log_dataframe(vessel, concepts)', 'get_log_dataframe(vessel)')]),
    ("bug", V, [("act_map = {act.id: act.name for act in get_subprocesses(concepts)}", "act_map = {act.id: act.name for act in concepts}")]),
    ("bug", V, [('x_combined.extend(x)\n            y_combined.extend(y)', 'x_combined.extend(y)\n            y_combined.extend(x)')]),
    ("bug", V, [("names[k]", "names[0]")]),
    ("bug", V, [('.set_index("Timestamp", drop=False)', '.reset_index(drop=True)')]),
    ("bug", V, [(TR, TR.replace("            x_combined.extend(x)\n            y_combined.extend(y)\n", "            x_combined = x\n            y_combined = y\n"))]),
    ("bug", V, [('        fig = go.Figure(data=traces, layout=layout)', '        fig = go.Figure(data=traces[:10], layout=layout)')]),
    ("bug", V, [('"ActivityState": "activity_state"', '"ActivityState": "state"'), ])if False else ("bug", V, [("    for vessel in concepts:\n        if len(vessel.log[\"Timestamp\"]) > 0:", "    for vessel in concepts:\n        if len(vessel.log[\"Timestamp\"]) > 4:")]),
    ("bug", V, [("activities = [*activities.values()]", "activities = [*activities.keys()]")]),
    ("same", V, [('''                df.drop(df[df.activity_state == "WAIT_START"].index)
                .drop(df[df.activity_state == "WAIT_STOP"].index)
''', '''                df[~df.activity_state.isin(["WAIT_START", "WAIT_STOP"])]
''')]),
    ("same", V, [('''                df.drop(df[df.activity_state == "WAIT_START"].index)
                .drop(df[df.activity_state == "WAIT_STOP"].index)
''', '''                df.loc[
                    (df["activity_state"] != "WAIT_START")
                    & (df["activity_state"] != "WAIT_STOP"), :
                ]
''')]),
    ("same", V, [("concepts = [*concepts.values()]", "concepts = list(concepts.values())")]),
    ("same", V, [(TR, '''        for k in range(len(dataframes)):
            y_val = names[k] if y_scale != "numbers" else -k
            points = get_segments(dataframes[k], activity, y_val)
            x_combined += points[0]
            y_combined += points[1]
''')]),
    ("same", V, [(TR, '''        for k, (df, name) in enumerate(zip(dataframes, names)):
            y_val = -k if y_scale == "numbers" else name
            x, y = get_segments(df, activity=activity, y_val=y_val)
            x_combined.extend(x)
            y_combined.extend(y)
''')]),
    ("same", V, [("if len(vessel.log[\"Timestamp\"]) > 0:", "if len(vessel.log[\"Timestamp\"]) != 0:")]),
    ("same", V, [('''            activities.extend(set(obj.log["ActivityID"]))''', '''            activities += list(set(obj.log["ActivityID"]))''')]),
    # step chart
    ("bug", S, [("y[container] for y in", "y['default'] for y in")]),
    ("bug", S, [('list(df["container level"])]', 'list(df["container level"])[1:]]')]),
    ("bug", S, [("is False:", "is True:")]),
    ("bug", S, [("{obj.name} {container_map", "{container_map")]),
    ("bug", S, [("list(df[\"Timestamp\"]),", "sorted(set(df[\"Timestamp\"])),")]),
    ("bug", S, [(PLOT, PLOT + "                break\n")]),
    ("same", S, [(STEP, '''                levels = df["container level"].tolist()
                if isinstance(levels[0], dict):
                    y = [level[container] for level in levels]
                else:
                    y = levels
''')]),
    ("same", S, [('hasattr(df, "container level")', '"container level" in df.columns')]),
    ("same", S, [('''        container_list = obj.container.container_list
        for container in container_list:
            if hasattr(df, "container level"):
''', '''        if not hasattr(df, "container level"):
            continue
        for container in obj.container.container_list:
            if True:
''')]),
    # the log in lists
    ("bug", G, [('df.dropna(how="all")', 'df.dropna(how="any")')]),
    ("bug", G, [('''            "ActivityLabel",
        ]
''', '''        ]
''')]),
    ("bug", G, [("df = pd.DataFrame(self.logbook)", "df = pd.DataFrame(self.logbook).drop_duplicates(subset=['Timestamp'])")]),
]

# ---- blind batch
CASES += [
    ("bug", G, [('        list_format = df.to_dict(orient="list")\n', '        list_format = df.sort_values("Timestamp").to_dict(orient="list")\n')]),
    ("bug", G, [('        df = df.dropna(how="all")\n', '        df = df.dropna(subset=["ActivityID"])\n')]),
    ("bug", G, [('        df = df.dropna(how="all")\n', '        df = df.dropna(how="all")\n        df = df[df["ActivityState"] != "UNKNOWN"]\n')]),
    ("bug", G, [('        df["Timestamp"] = datetimes\n', '        df["Timestamp"] = datetimes.sort_values(ignore_index=True)\n')]),
    ("bug", G, [('        df["Timestamp"] = datetimes\n', '        df["Timestamp"] = datetimes.dt.floor("s")\n')]),
    ("bug", G, [('            [x.to_pydatetime() for x in df["Timestamp"].tolist()], dtype=object\n', '            [x.to_pydatetime().replace(microsecond=0) for x in df["Timestamp"].tolist()], dtype=object\n')]),
    ("bug", G, [('        df = pd.DataFrame(self.logbook)\n', '        df = pd.DataFrame(self.logbook[-10000:])\n')]),
    ("bug", G, [('        df = pd.DataFrame(self.logbook)\n', '        df = pd.DataFrame([e for e in self.logbook if e["ActivityID"] is not None])\n')]),
    ("bug", G, [('        df = pd.DataFrame(self.logbook)\n', '        df = pd.DataFrame(self.logbook[::-1])\n')]),
    ("bug", L, [('        id_map = [*id_map.values()]\n', '        id_map = [*id_map.keys()]\n')]),
    ("bug", L, [('            pd.DataFrame(simulation_object.log["ObjectState"]),\n', '            pd.DataFrame(simulation_object.log["ObjectState"]).ffill(),\n')]),
    ("bug", L, [('            pd.DataFrame(simulation_object.log["ObjectState"]),\n', '            pd.DataFrame(simulation_object.log["ObjectState"]).shift(1),\n')]),
    ("bug", L, [('            pd.DataFrame(simulation_object.log["ActivityLabel"]),\n        ],\n        axis=1,\n    )', '            pd.DataFrame(simulation_object.log["ActivityLabel"]),\n        ],\n        axis=1,\n    ).drop_duplicates(subset=["Timestamp", "Activity", "ActivityState"])')]),
    ("bug", L, [('            pd.DataFrame(simulation_object.log["ActivityLabel"]),\n        ],\n        axis=1,\n    )', '            pd.DataFrame(simulation_object.log["ActivityLabel"]),\n        ],\n        axis=1,\n    ).dropna(subset=["ActivityState"]).head(5000)')]),
    ("bug", L, [('            pd.DataFrame(simulation_object.log["ActivityLabel"]),\n        ],\n        axis=1,\n    )', '            pd.DataFrame(simulation_object.log["ActivityLabel"]),\n        ],\n        axis=1,\n        join="inner",\n    ).dropna()')]),
    ("bug", L, [('                .replace(id_map)\n', '                .replace(id_map, regex=True)\n')]),
    ("bug", L, [('        id_map = {act.id: act.name for act in get_subprocesses(id_map)}\n', '        id_map = {act.id: act.name for act in get_subprocesses(id_map) if not hasattr(act, "sub_processes")}\n')]),
    ("bug", L, [('        id_map = {act.id: act.name for act in get_subprocesses(id_map)}\n', '        id_map = {act.id: act.name for act in get_subprocesses(id_map)[: len(id_map)]}\n')]),
    ("bug", L, [('        id_map = {act.id: act.name for act in get_subprocesses(id_map)}\n', '        id_map = {act.id: type(act).__name__ for act in get_subprocesses(id_map)}\n')]),
    ("bug", V, [('            start = index\n', '            start = df.index[0]\n')]),
    ("bug", V, [('            x.extend((start, start, index, index, index))\n', '            x.extend((start, start, index, index, index))\n            start = index\n'), ('            start = index\n        elif', '            start = start or index\n        elif')]),
    ("bug", V, [('            y.extend((y_val, y_val, y_val, y_val, None))\n', '            if index > start:\n                y.extend((y_val, y_val, y_val, y_val, None))\n')]),
    ("bug", V, [('            x.extend((start, start, index, index, index))\n            y.extend((y_val, y_val, y_val, y_val, None))\n', '            if len(x) < 500:\n                x.extend((start, start, index, index, index))\n                y.extend((y_val, y_val, y_val, y_val, None))\n')]),
    ("bug", V, [('            x.extend((start, start, index, index, index))\n            y.extend((y_val, y_val, y_val, y_val, None))\n', '            x.extend((start, start, index, index, index))\n            y.extend((y_val, y_val, y_val, y_val, y_val))\n')]),
    ("bug", V, [('            activities.extend(set(obj.log["ActivityID"]))\n', '            activities = list(set(obj.log["ActivityID"]))\n')]),
    ("bug", V, [('            activities.extend(set(obj.log["ActivityID"]))\n', '            activities.extend(set(obj.log["ActivityID"][:100]))\n')]),
    ("bug", V, [('            y_val = -k if y_scale == "numbers" else names[k]\n', '            y_val = -i if y_scale == "numbers" else names[k]\n')]),
    ("bug", V, [('            y_val = -k if y_scale == "numbers" else names[k]\n', '            y_val = -k if y_scale == "numbers" else concepts[k].name\n')]),
    ("bug", V, [('            y_val = -k if y_scale == "numbers" else names[k]\n', '            y_val = -(k % 10) if y_scale == "numbers" else names[k]\n')]),
    ("bug", V, [('                name=id_map.get(activity, activity),\n                x=x_combined,\n                y=y_combined,\n', '                name=id_map.get(activity, activity),\n                x=x_combined[:-1],\n                y=y_combined[1:],\n')]),
    ("bug", V, [('        traces.append(\n            go.Scatter(\n', '        if not x_combined or i >= len(colors) - 1:\n            continue\n        traces.append(\n            go.Scatter(\n')]),
    ("bug", V, [('        return {"data": traces, "layout": layout}', '        return {"data": traces[:-1], "layout": layout}')]),
    ("bug", V, [('    # prepare traces for each of the activities\n    traces = []\n', '    # prepare traces for each of the activities\n    traces = []\n    dataframes = dataframes[:8]\n')]),
    ("bug", V, [('            dataframes.append(df)\n            names.append(vessel.name)\n', '            dataframes.append(df)\n            if vessel.name not in names:\n                names.append(vessel.name)\n')]),
    ("bug", V, [('            dataframes.append(df)\n            names.append(vessel.name)\n', '            dataframes.append(df)\n        names.append(vessel.name)\n')]),
    ("bug", V, [('            dataframes.append(df)\n            names.append(vessel.name)\n', '            dataframes.append(df.drop_duplicates(subset=["log_string"]))\n            names.append(vessel.name)\n')]),
    ("bug", V, [('            dataframes.append(df)\n            names.append(vessel.name)\n', '            dataframes.append(df.sort_index(ascending=False))\n            names.append(vessel.name)\n')]),
    ("bug", S, [('        for container in container_list:\n', '        for container in container_list[:1]:\n')]),
    ("bug", S, [('        df = get_log_dataframe(obj)\n', '        df = get_log_dataframe(obj)\n        df = df[df["ActivityState"] == "STOP"]\n')]),
    ("bug", S, [('        df = get_log_dataframe(obj)\n', '        df = get_log_dataframe(obj).drop_duplicates("Timestamp")\n')]),
    ("bug", S, [('    for obj in simulation_objects:\n', '    for obj in simulation_objects[1:]:\n')]),
    ("bug", S, [('                    list(df["Timestamp"]),\n', '                    [t - df["Timestamp"].iloc[0] for t in df["Timestamp"]],\n')]),
    ("bug", S, [('                    y = list(df["container level"])\n', '                    y = [max(0, v) for v in df["container level"].diff()]\n')]),
    ("bug", S, [('                    y = [y[container] for y in list(df["container level"])]\n', '                    y = [y.get("default", 0) for y in list(df["container level"])]\n')]),
    ("bug", S, [('            if hasattr(df, "container level"):\n', '            if hasattr(df, "container level") and container in container_map:\n')]),
    ("bug", S, [('                    y,\n                    label', '                    y[::-1],\n                    label')]),
    # edits
    ("same", S, [('                plt.plot(\n                    list(df["Timestamp"]),\n', '                times = list(df["Timestamp"])\n                plt.plot(\n                    times,\n')]),
    ("same", S, [('                    y = [y[container] for y in list(df["container level"])]\n', '                    y = df["container level"].map(lambda level: level[container]).tolist()\n')]),
    ("same", S, [('                if isinstance(list(df["container level"])[0], dict) is False:\n                    y = list(df["container level"])\n                else:\n                    y = [y[container] for y in list(df["container level"])]\n', '                y = [\n                    level[container] if isinstance(level, dict) else level\n                    for level in df["container level"]\n                ]\n')]),
    ("same", S, [('            if hasattr(df, "container level"):\n', '            if not hasattr(df, "container level"):\n                continue\n            else:\n')]),
    ("same", V, [('    for index, row in df.iterrows():\n', '    own = df[df["log_string"] == activity]\n    for index, row in own.iterrows():\n'), (' and row["log_string"] == activity', '')]),
    ("same", V, [('    timestamps = []\n    logs = [o.log["Timestamp"] for o in concepts]\n    for log in logs:\n        timestamps.extend(log)\n', '    timestamps = [t for o in concepts for t in o.log["Timestamp"]]\n')]),
    ("same", V, [('            x.extend((start, start, index, index, index))\n            y.extend((y_val, y_val, y_val, y_val, None))\n', '            x += [start, start, index, index, index]\n            y += [y_val] * 4 + [None]\n')]),
    ("same", V, [('            x, y = get_segments(df, activity=activity, y_val=y_val)\n            x_combined.extend(x)\n            y_combined.extend(y)\n', '            segments = get_segments(df, activity, y_val)\n            x_combined += segments[0]\n            y_combined += segments[1]\n')]),
    ("same", V, [('            y_val = -k if y_scale == "numbers" else names[k]\n', '            if y_scale == "numbers":\n                y_val = -k\n            else:\n                y_val = names[k]\n')]),
    ("same", V, [('        activity = act_map.get(activity, activity)\n', '        if activity in act_map:\n            activity = act_map[activity]\n')]),
    ("same", V, [('            df = (\n                df.drop(df[df.activity_state == "WAIT_START"].index)\n                .drop(df[df.activity_state == "WAIT_STOP"].index)\n                .set_index("Timestamp", drop=False)\n            )\n', '            waiting = df["activity_state"].isin(["WAIT_START", "WAIT_STOP"])\n            df = df[~waiting].set_index("Timestamp", drop=False)\n')]),
    ("same", V, [('    if static is False:\n        init', '    if not static:\n        init')]) ,
    ("same", G, [('        columns_to_drop = set(df.columns) - set(columns)\n\n        df = df.drop(columns=columns_to_drop)\n', '        df = df[[c for c in df.columns if c in columns]]\n')]),
    ("same", G, [('        datetimes = pd.Series(\n            [x.to_pydatetime() for x in df["Timestamp"].tolist()], dtype=object\n        )\n', '        stamps = [x.to_pydatetime() for x in df["Timestamp"]]\n        datetimes = pd.Series(stamps, dtype=object)\n')]),
    ("same", G, [('        list_format = df.to_dict(orient="list")\n\n        return list_format\n', '        return df.to_dict("list")\n')]),
    ("same", L, [('    df = pd.DataFrame(simulation_object.log).sort_values(\n        by=["Timestamp"], kind="stable"\n    )\n', '    log = pd.DataFrame(simulation_object.log)\n    df = log.sort_values(by="Timestamp", kind="mergesort")\n')]),
    ("same", L, [('        id_map = {act.id: act.name for act in get_subprocesses(id_map)}\n', '        names = {}\n        for act in get_subprocesses(id_map):\n            names[act.id] = act.name\n        id_map = names\n')]),
]
