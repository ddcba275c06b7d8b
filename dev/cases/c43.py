I = "io.py"
ROWS = '''    li = []
    for attr_name in ["processor", "mover", "origin", "destination"]:
        mask = [hasattr(x, attr_name) for x in df["activity"]]
        li += [
            (
                x.id,
                x.name,
                type(x).__name__,
                getattr(getattr(x, attr_name), "id"),
                getattr(getattr(x, attr_name), "name"),
                attr_name,
            )
            for x in df[mask]["activity"]
        ]
'''
LEVEL = '''        if "container level" in log1.keys():
            t0 = t0[["TimestampStart", "container level"]].rename(
                columns={"container level": "ContainerLevelStart"}
            )
            t1 = t1[["TimestampStop", "container level"]].rename(
                columns={"container level": "ContainerLevelStop"}
            )
        else:
            t0 = t0[["TimestampStart"]]
            t1 = t1[["TimestampStop"]]
'''
PAD = '''        if len(t0) == len(t1):
            pass
        elif len(t0) == len(t1) + 1:
            print("END missing")
            dt1 = pd.DataFrame.from_dict(
                {"trip": [len(t0)], "TimestampStop": [pd.NaT]}
            )
            t1 = pd.concat([t1, dt1], ignore_index=True)
        else:
            raise Exception("At most 1 range may be without STOP")
        s = t0.merge(t1, on="trip")
'''
LOOP = '''    li = []
    for i, rowi in df.iterrows():
        log = get_ranges_dataframe(rowi["activity"])
        log.rename(columns={"Activity": "ActivityID"}, inplace=True)
        li.append(log)
'''
LOGLEFT = '''        df[["ActivityID", "ActivityName", "ActivityClass"]], on="ActivityID", how="left"
'''
CASES = [
    # concepts
    ("bug", I, [('f"{namespace}ID": [x.id for x in concepts],', 'f"{namespace}ID": [x.name for x in concepts],')]),
    ("bug", I, [('f"{namespace}Class": [type(x).__name__ for x in concepts],', 'f"{namespace}Class": ["Vessel" for x in concepts],')]),
    ("bug", I, [('f"{namespace}ID": [x.id', '"ID": [x.id')]),
    ("bug", I, [("concepts = [*concepts.values()]", "concepts = [*concepts]")]),
    ("bug", I, [("    if isinstance(concepts, dict):\n        concepts = [*concepts.values()]\n", "")]),
    ("bug", I, [("f\"{namespace}Name\": [x.name for x in concepts]", "f\"{namespace}Name\": [x.name for x in concepts if x.name]")]),
    ("bug", I, [("    df = pd.DataFrame(df)\n    if ofile:\n        df.to_csv(ofile, index=False)", "    df = pd.DataFrame(df)\n    if not ofile:\n        df.to_csv(ofile, index=False)")]),
    ("bug", I, [("    df = pd.DataFrame(df)\n    if ofile:\n        df.to_csv(ofile, index=False)", "    df = pd.DataFrame(df)\n    if ofile:\n        df.to_csv(ofile)")]),
    ("same", I, [("    if isinstance(concepts, dict):\n        concepts = [*concepts.values()]\n", "    concepts = list(concepts.values()) if isinstance(concepts, dict) else concepts\n")]),
    ("same", I, [('''    df = {
        f"{namespace}Name": [x.name for x in concepts],
        f"{namespace}ID": [x.id for x in concepts],
        f"{namespace}Class": [type(x).__name__ for x in concepts],
    }
''', '''    names = []
    ids = []
    classes = []
    for concept in concepts:
        names.append(concept.name)
        ids.append(concept.id)
        classes.append(concept.__class__.__name__)
    df = {
        namespace + "Name": names,
        namespace + "ID": ids,
        namespace + "Class": classes,
    }
''')]),
    ("same", I, [('''    df = {
        f"{namespace}Name": [x.name for x in concepts],
        f"{namespace}ID": [x.id for x in concepts],
        f"{namespace}Class": [type(x).__name__ for x in concepts],
    }
''', '''    df = [
        {
            f"{namespace}Name": x.name,
            f"{namespace}ID": x.id,
            f"{namespace}Class": type(x).__name__,
        }
        for x in concepts
    ]
''')]),
    # activities
    ("bug", I, [('df["MoverID"] = [x.id if x else None for x in mover]', 'df["MoverID"] = [x.id if x else None for x in processor]')]),
    ("bug", I, [('df["OriginName"] = [x.name if x else "" for x in origin]', 'df["OriginName"] = [x.name if x else "" for x in destination]')]),
    ("bug", I, [('df["DestinationName"] = [x.name if', 'df["DestinationName"] = [x.id if')]),
    ("bug", I, [('x.processor if hasattr(x, "processor") else None', 'x.processor if hasattr(x, "mover") else None')]),
    ("bug", I, [('mover = [x.mover if hasattr(x, "mover") else None for x in df["activity"]]', 'mover = [getattr(x, "mover") for x in df["activity"]]')]),
    ("bug", I, [('df["ProcessorName"] = [x.name if x else "" for x in processor]', 'df["ProcessorName"] = [x.name for x in processor]')]),
    ("bug", I, [('''        "ProcessorID",
        "ProcessorName",
''', '''        "ProcessorName",
''')]),
    ("bug", I, [('''    df = pd.DataFrame(get_tree_as_list(activities))

    processor = [''', '''    df = pd.DataFrame(get_tree_as_list(activities))
    df = df[df["ParentLevel"] == 0]

    processor = [''')]),
    ("same", I, [('mover = [x.mover if hasattr(x, "mover") else None for x in df["activity"]]', 'mover = [getattr(x, "mover", None) for x in df["activity"]]')]),
    ("same", I, [('''    df["ProcessorID"] = [x.id if x else None for x in processor]
''', '''    def concept_id(x):
        return x.id if x else None

    df["ProcessorID"] = [concept_id(x) for x in processor]
''')]),
    ("same", I, [('''    processor = [
        x.processor if hasattr(x, "processor") else None for x in df["activity"]
    ]
''', '''    processor = []
    for act in df["activity"]:
        if hasattr(act, "processor"):
            processor.append(act.processor)
        else:
            processor.append(None)
''')]),
    ("same", I, [('df["OriginName"] = [x.name if x else "" for x in origin]', 'df["OriginName"] = ["" if x is None else x.name for x in origin]')]),
    # resources
    ("bug", I, [('["processor", "mover", "origin", "destination"]', '["processor", "mover", "origin"]')]),
    ("bug", I, [('["processor", "mover", "origin", "destination"]', '["processor", "mover", "origin", "destination", "mover"]')]),
    ("bug", I, [('getattr(getattr(x, attr_name), "name"),', 'x.name,')]),
    ("bug", I, [('''                attr_name,
            )
''', '''                type(getattr(x, attr_name)).__name__,
            )
''')]),
    ("bug", I, [('[hasattr(x, attr_name) for x in df["activity"]]', '[hasattr(x, "origin") for x in df["activity"]]')]),
    ("bug", I, [('''            "ConceptID",
            "ConceptName",
            "ConceptMode",
        ],
    )
''', '''            "ConceptName",
            "ConceptID",
            "ConceptMode",
        ],
    )
''')]),
    ("bug", I, [("        li += [\n            (\n                x.id", "        li = [\n            (\n                x.id")]),
    ("same", I, [(ROWS, '''    li = []
    for attr_name in ["processor", "mover", "origin", "destination"]:
        for x in df["activity"]:
            if not hasattr(x, attr_name):
                continue
            concept = getattr(x, attr_name)
            li.append(
                (
                    x.id,
                    x.name,
                    type(x).__name__,
                    concept.id,
                    concept.name,
                    attr_name,
                )
            )
''')]),
    ("same", I, [(ROWS, '''    li = []
    for x in df["activity"]:
        for attr_name in ["processor", "mover", "origin", "destination"]:
            if hasattr(x, attr_name):
                concept = getattr(x, attr_name)
                row = (x.id, x.name, type(x).__name__, concept.id, concept.name, attr_name)
                li.append(row)
''')]),
    # ranges
    ("bug", I, [('log1[log1["ActivityState"] == "START"]', 'log1[log1["ActivityState"] != "STOP"]')]),
    ("bug", I, [('log1[log1["ActivityState"] == "STOP"]', 'log[log["ActivityState"] == "STOP"]')]),
    ("bug", I, [('t1["trip"] = range(1, len(t1) + 1)', 't1["trip"] = range(0, len(t1))')]),
    ("bug", I, [('t0["trip"] = range(1, len(t0) + 1)', 't0["trip"] = range(0, len(t0))'), ('t1["trip"] = range(1, len(t1) + 1)', 't1["trip"] = range(0, len(t1))')]),
    ("bug", I, [('s["TimestampStop"] - s["TimestampStart"]', 's["TimestampStart"] - s["TimestampStop"]')]),
    ("bug", I, [('[x.total_seconds() for x in dt]', '[x.seconds for x in dt]')]),
    ("bug", I, [('R = R.sort_values(by=["TimestampStart"])', 'R = R.sort_values(by=["TimestampStop"])')]),
    ("bug", I, [('R = R.sort_values(by=["TimestampStart"])\n', '')]),
    ("bug", I, [('for ActivityID in set(log[idkey]):', 'for ActivityID in log[idkey]:')]),
    ("bug", I, [(PAD, '        s = t0.merge(t1, on="trip")\n')]),
    ("bug", I, [('{"trip": [len(t0)], ', '{"trip": [len(t1)], ')]),
    ("bug", I, [('elif len(t0) == len(t1) + 1:', 'elif len(t0) + 1 == len(t1):')]),
    ("bug", I, [('"TimestampStop": [pd.NaT]', '"TimestampStop": [t0["TimestampStart"].iloc[-1]]')]),
    ("bug", I, [('"container level": "ContainerLevelStop"', '"container level": "ContainerLevelStart"')]),
    ("bug", I, [('''            t1 = t1[["TimestampStop", "container level"]].rename(''', '''            t1 = t1[["TimestampStop"]].rename(''')]),
    ("bug", I, [('''    if "type" in log:
        log = log[log["type"] != "subprocess"]
''', '')]),
    ("bug", I, [('log = log[log["type"] != "subprocess"]', 'log = log[log["type"] == "subprocess"]')]),
    ("bug", I, [('get_log_dataframe(simulation_object, id_map=id_map)', 'get_log_dataframe(simulation_object)')]),
    ("bug", I, [('    R = pd.concat(li)\n', '    R = pd.concat(li).dropna()\n')]),
    ("bug", I, [('        li.append(s)\n', '        if len(s) > 1:\n            li.append(s)\n')]),
    ("same", I, [(PAD, '''        if len(t0) - len(t1) not in (0, 1):
            raise Exception("At most 1 range may be without STOP")
        s = t0.merge(t1, on="trip", how="left")
''')]),
    ("same", I, [('    R = pd.concat(li)\n    R = R.sort_values(by=["TimestampStart"])\n\n    return R\n', '    return pd.concat(li, ignore_index=True).sort_values("TimestampStart")\n')]),
    ("same", I, [('for ActivityID in set(log[idkey]):', 'for ActivityID in log[idkey].unique():')]),
    ("same", I, [('''        dt = s["TimestampStop"] - s["TimestampStart"]
''', '''        s["dt"] = s["TimestampStop"] - s["TimestampStart"]
        dt = s["dt"]
''')]),
    ("same", I, [('''        t0 = log1[log1["ActivityState"] == "START"].rename(
            columns={"Timestamp": "TimestampStart"}
        )
''', '''        started = log1["ActivityState"] == "START"
        t0 = log1.loc[started]
        t0 = t0.rename(columns={"Timestamp": "TimestampStart"})
''')]),
    ("same", I, [('        s["TimestampDt"] = [x.total_seconds() for x in dt]\n', '        s["TimestampDt"] = dt.dt.total_seconds()\n')]),
    ("same", I, [('        li.append(s)\n', '        if len(s) > 0:\n            li.append(s)\n')]),
    ("same", I, [('''        if len(t0) == len(t1):
            pass
        elif len(t0) == len(t1) + 1:
''', '''        missing = len(t0) - len(t1)
        if missing == 0:
            pass
        elif missing == 1:
''')]),
    # log of activities
    ("bug", I, [('on="ActivityID", how="left"', 'on="ActivityID", how="right"')]),
    ("bug", I, [('for i, rowi in df.iterrows():', 'for i, rowi in df[df["ParentLevel"] == 0].iterrows():')]),
    ("bug", I, [('[log for log in li if len(log) > 0] or li', '[log for log in li if len(log) > 1] or li')]),
    ("bug", I, [('    return ActivityRanges.sort_values(by=["TimestampStart"])', '    return ActivityRanges')]),
    ("bug", I, [('    return ActivityRanges.sort_values(by=["TimestampStart"])', '    return ActivityRanges.sort_values(by=["TimestampStart"], ascending=False)')]),
    ("bug", I, [('get_ranges_dataframe(rowi["activity"])', 'get_ranges_dataframe(rowi["activity"], id_map=[rowi["activity"]])')]),
    ("bug", I, [('''        "TimestampStop",
        "TimestampDt",
    ]
''', '''        "TimestampDt",
    ]
''')]),
    ("bug", I, [('''    if ofile:
        ActivityRanges.to_csv(ofile, columns=keys, index=False)

''', '')]),
    ("same", I, [(LOOP, '''    li = []
    for act in df["activity"]:
        log = get_ranges_dataframe(act).rename(columns={"Activity": "ActivityID"})
        li.append(log)
''')]),
    ("same", I, [(LOOP, '''    li = [
        get_ranges_dataframe(act).rename(columns={"Activity": "ActivityID"})
        for act in df["activity"]
    ]
''')]),
    ("same", I, [("[log for log in li if len(log) > 0] or li", "[log for log in li if not log.empty] or li")]),
    ("same", I, [("    ActivityRanges = pd.concat([log for log in li if len(log) > 0] or li)\n", '''    filled = [log for log in li if len(log) > 0]
    if not filled:
        filled = li
    ActivityRanges = pd.concat(filled)
''')]),
    ("same", I, [('''    return ActivityRanges.sort_values(by=["TimestampStart"])''', '''    ActivityRanges = ActivityRanges.sort_values("TimestampStart")
    return ActivityRanges''')]),
]

# ---- blind batch
CASES += [
    ("bug", I, [('    R = R.sort_values(by=["TimestampStart"])\n', '    R = R.sort_values(by=["TimestampStop"])\n')]),
    ("bug", I, [('    R = R.sort_values(by=["TimestampStart"])\n', '    R = R.sort_values(by=["TimestampStart"]).drop_duplicates(subset=["TimestampStart"])\n')]),
    ("bug", I, [('        s["TimestampDt"] = [x.total_seconds() for x in dt]\n', '        s["TimestampDt"] = [x.seconds for x in dt]\n')]),
    ("bug", I, [('        s["TimestampDt"] = [x.total_seconds() for x in dt]\n        li.append(s)\n', '        s["TimestampDt"] = [x.total_seconds() for x in dt]\n        if s["TimestampDt"].sum() > 0:\n            li.append(s)\n')]),
    ("bug", I, [('        s["TimestampDt"] = [x.total_seconds() for x in dt]\n        li.append(s)\n', '        s["TimestampDt"] = [x.total_seconds() for x in dt]\n        s = s[s["TimestampDt"] > 0]\n        li.append(s)\n')]),
    ("bug", I, [('        s = t0.merge(t1, on="trip")\n', '        s = t0.merge(t1, on="trip").dropna()\n')]),
    ("bug", I, [('        t0["trip"] = range(1, len(t0) + 1)\n', '        t0 = t0.drop_duplicates()\n        t0["trip"] = range(1, len(t0) + 1)\n')]),
    ("bug", I, [('        t1["trip"] = range(1, len(t1) + 1)\n', '        t1["trip"] = range(len(t1), 0, -1)\n')]),
    ("bug", I, [('columns={"container level": "ContainerLevelStop"}', 'columns={"container level": "ContainerLevelStart"}')]),
    ("bug", I, [('        log = get_ranges_dataframe(rowi["activity"])\n', '        log = get_ranges_dataframe(rowi["activity"], id_map=activities)\n')]),
    ("bug", I, [('    for i, rowi in df.iterrows():\n        log = get', '    for i, rowi in df[df["ParentLevel"] > 0].iterrows():\n        log = get')]),
    ("bug", I, [('        li.append(log)\n', '        li.append(log[:1])\n')]),
    ("bug", I, [('        li.append(log)\n', '        li.append(log.drop_duplicates(subset=["trip"]))\n')]),
    ("bug", I, [('pd.concat([log for log in li if len(log) > 0] or li)', 'pd.concat([log for log in li if len(log) > 1] or li)')]),
    ("bug", I, [('        df[["ActivityID", "ActivityName", "ActivityClass"]], on="ActivityID", how="left"\n', '        df[["ActivityID", "ActivityName", "ActivityClass"]], on="ActivityID", how="outer"\n')]),
    ("bug", I, [('    return ActivityRanges.sort_values(by=["TimestampStart"])', '    return ActivityRanges.sort_values(by=["ActivityName", "TimestampStart"])')]),
    ("bug", I, [('    return ActivityRanges.sort_values(by=["TimestampStart"])', '    return ActivityRanges.sort_values(by=["TimestampStart"], ascending=False)')]),
    ("bug", I, [('        ActivityRanges.to_csv(ofile, columns=keys, index=False)', '        ActivityRanges.head(1000).to_csv(ofile, columns=keys, index=False)')]),
    ("bug", I, [('        df.to_csv(ofile, columns=keys, index=False)', '        df.to_csv(ofile, columns=keys, index=False, mode="a")')]),
    ("bug", I, [('        df.to_csv(ofile, columns=keys, index=False)', '        df.drop_duplicates("ActivityName").to_csv(ofile, columns=keys, index=False)')]),
    ("bug", I, [('        df.to_csv(ofile, columns=keys, index=False)', '        df.to_csv("activities.csv", columns=keys, index=False)')]),
    ("bug", I, [('    if ofile:\n        res.to_csv(ofile, index=False)', '    if ofile and len(res) > 1:\n        res.to_csv(ofile, index=False)')]),
    ("bug", I, [('    if ofile:\n        res.to_csv(ofile, index=False)\n\n    return res', '    if ofile:\n        res.to_csv(ofile, index=False)\n\n    return res.drop_duplicates(subset=["ActivityID", "ConceptID"])')]),
    ("bug", I, [('            for x in df[mask]["activity"]\n', '            for x in set(df[mask]["activity"]) if x.name\n')]),
    ("bug", I, [('            for x in df[mask]["activity"]\n', '            for x in df[mask]["activity"]\n            if not hasattr(x, "sub_processes")\n')]),
    ("bug", I, [('        log = log[log["type"] != "subprocess"]', '        log = log[log["type"] == "additional"]')]),
    ("bug", I, [('    log = get_log_dataframe(simulation_object, id_map=id_map)\n', '    log = get_log_dataframe(simulation_object, id_map=id_map).drop_duplicates(subset=["Timestamp", "Activity"])\n')]),
    ("bug", I, [('    log = get_log_dataframe(simulation_object, id_map=id_map)\n', '    log = get_log_dataframe(simulation_object)\n')]),
    ("bug", I, [('        t0 = log1[log1["ActivityState"] == "START"].rename(', '        t0 = log1[log1["ActivityState"] != "STOP"].rename(')]),
    ("bug", I, [('        t1 = log1[log1["ActivityState"] == "STOP"].rename(', '        t1 = log1[log1["ActivityState"] != "START"].rename(')]),
    ("bug", I, [('        dt = s["TimestampStop"] - s["TimestampStart"]\n', '        dt = s["TimestampStop"] - s["TimestampStart"].min()\n')]),
    ("bug", I, [('        s[idkey] = ActivityID\n', '        s[idkey] = simulation_object.id\n')]),
    ("bug", I, [('    processor = [\n        x.processor if hasattr(x, "processor") else None for x in df["activity"]\n    ]', '    processor = [\n        x.processor if hasattr(x, "processor") and hasattr(x, "mover") else None for x in df["activity"]\n    ]')]),
    ("bug", I, [('    df["OriginID"] = [x.id if x else None for x in origin]', '    df["OriginID"] = [x.id if x else None for x in origin]\n    df["OriginID"] = df["OriginID"].ffill()')]),
    ("bug", I, [('    df["DestinationName"] = [x.name if x else "" for x in destination]\n', '    df["DestinationName"] = [x.name if x else "" for x in destination]\n    df = df.sort_values("ActivityName")\n    df = df.drop_duplicates(subset=["ActivityName", "ParentName"])\n')]),
    ("bug", I, [('        f"{namespace}Class": [type(x).__name__ for x in concepts],', '        f"{namespace}Class": [type(x).__mro__[1].__name__ for x in concepts],')]),
    ("bug", I, [('    df = pd.DataFrame(df)\n    if ofile:\n        df.to_csv(ofile, index=False)\n\n    return df\n\n\ndef get_activities', '    df = pd.DataFrame(df).drop_duplicates(subset=[f"{namespace}Name"])\n    if ofile:\n        df.to_csv(ofile, index=False)\n\n    return df\n\n\ndef get_activities')]),
    ("bug", I, [('        f"{namespace}ID": [x.id for x in concepts],', '        f"{namespace}ID": [x.id for x in sorted(concepts, key=lambda x: x.name)],')]),
    ("bug", I, [('                {"trip": [len(t0)], "TimestampStop": [pd.NaT]}', '                {"trip": [len(t0)], "TimestampStop": [t0["TimestampStart"].max()]}')]),
    # edits
    ("same", I, [('        s["TimestampDt"] = [x.total_seconds() for x in dt]\n', '        s["TimestampDt"] = dt.dt.total_seconds()\n')]),
    ("same", I, [('        s["TimestampDt"] = [x.total_seconds() for x in dt]\n', '        durations = []\n        for x in dt:\n            durations.append(x.total_seconds())\n        s["TimestampDt"] = durations\n')]),
    ("same", I, [('        s["TimestampDt"] = [x.total_seconds() for x in dt]\n', '        s["TimestampDt"] = list(map(lambda x: x.total_seconds(), dt))\n')]),
    ("same", I, [('    R = pd.concat(li)\n    R = R.sort_values(by=["TimestampStart"])\n\n    return R', '    return pd.concat(li).sort_values("TimestampStart")')]),
    ("same", I, [('    for ActivityID in set(log[idkey]):\n', '    for ActivityID in log[idkey].unique():\n')]),
    ("same", I, [('    for ActivityID in set(log[idkey]):\n        log1 = log[log[idkey] == ActivityID]\n', '    for ActivityID, log1 in log.groupby(idkey):\n')]),
    ("same", I, [('        t0["trip"] = range(1, len(t0) + 1)\n        t1["trip"] = range(1, len(t1) + 1)\n', '        for t in (t0, t1):\n            t["trip"] = range(1, len(t) + 1)\n')]),
    ("same", I, [('        t0["trip"] = range(1, len(t0) + 1)\n        t1["trip"] = range(1, len(t1) + 1)\n', '        n0 = len(t0)\n        n1 = len(t1)\n        t0["trip"] = [k + 1 for k in range(n0)]\n        t1["trip"] = [k + 1 for k in range(n1)]\n')]),
    ("same", I, [('        if len(t0) == len(t1):\n            pass\n        elif len(t0) == len(t1) + 1:\n', '        missing = len(t0) - len(t1)\n        if missing == 1:\n'), ('        else:\n            raise Exception("At most 1 range may be without STOP")\n', '        elif missing != 0:\n            raise Exception("At most 1 range may be without STOP")\n')]),
    ("same", I, [('    for i, rowi in df.iterrows():\n        log = get_ranges_dataframe(rowi["activity"])\n', '    for activity in df["activity"]:\n        log = get_ranges_dataframe(activity)\n')]),
    ("same", I, [('        log = get_ranges_dataframe(rowi["activity"])\n        log.rename(columns={"Activity": "ActivityID"}, inplace=True)\n        li.append(log)\n', '        li.append(\n            get_ranges_dataframe(rowi["activity"]).rename(\n                columns={"Activity": "ActivityID"}\n            )\n        )\n')]),
    ("same", I, [('    keys = [\n        "trip",\n', '    ActivityRanges = ActivityRanges.sort_values(by=["TimestampStart"])\n\n    keys = [\n        "trip",\n'), ('    return ActivityRanges.sort_values(by=["TimestampStart"])', '    return ActivityRanges')]),
    ("same", I, [('    for attr_name in ["processor", "mover", "origin", "destination"]:\n        mask = [hasattr(x, attr_name) for x in df["activity"]]\n', '    roles = ("processor", "mover", "origin", "destination")\n    for attr_name in roles:\n        mask = df["activity"].map(lambda x: hasattr(x, attr_name))\n')]),
    ("same", I, [('    processor = [\n        x.processor if hasattr(x, "processor") else None for x in df["activity"]\n    ]\n    mover = [x.mover if hasattr(x, "mover") else None for x in df["activity"]]\n    origin = [x.origin if hasattr(x, "origin") else None for x in df["activity"]]\n    destination = [\n        x.destination if hasattr(x, "destination") else None for x in df["activity"]\n    ]\n', '    def related(role):\n        return [getattr(x, role, None) for x in df["activity"]]\n\n    processor = related("processor")\n    mover = related("mover")\n    origin = related("origin")\n    destination = related("destination")\n')]),
    ("same", I, [('    df["ProcessorID"] = [x.id if x else None for x in processor]\n    df["MoverID"] = [x.id if x else None for x in mover]\n    df["OriginID"] = [x.id if x else None for x in origin]\n    df["DestinationID"] = [x.id if x else None for x in destination]\n\n    df["ProcessorName"] = [x.name if x else "" for x in processor]\n    df["MoverName"] = [x.name if x else "" for x in mover]\n    df["OriginName"] = [x.name if x else "" for x in origin]\n    df["DestinationName"] = [x.name if x else "" for x in destination]\n', '    for role, column in (\n        ("Processor", processor),\n        ("Mover", mover),\n        ("Origin", origin),\n        ("Destination", destination),\n    ):\n        df[role + "ID"] = [x.id if x else None for x in column]\n        df[role + "Name"] = [x.name if x else "" for x in column]\n')]),
    ("same", I, [('    if ofile:\n        res.to_csv(ofile, index=False)', '    if ofile is not None and ofile != "":\n        res.to_csv(ofile, index=False)')]),
    ("same", I, [('    if "type" in log:\n        log = log[log["type"] != "subprocess"]\n', '    if "type" in log.columns:\n        keep = log["type"] != "subprocess"\n        log = log[keep]\n')]),
    ("same", I, [('    if "type" in log:\n        log = log[log["type"] != "subprocess"]\n', '    if "type" in log:\n        log = log.loc[~(log["type"] == "subprocess")]\n')]),
]
CASES = [c for i, c in enumerate(CASES) if i not in [85]]
