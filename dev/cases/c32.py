I = "io.py"
N = "            n = len(act.sub_processes)\n            ParentId += [act.id] * n + d[\"ParentId\"][n:]\n            ParentName += [act.name] * n + d[\"ParentName\"][n:]\n"
D = "            d = get_tree_as_list(act.sub_processes, depth + 1)\n"
HEAD = "    if isinstance(treelist, list):\n        pass\n    elif isinstance(treelist, dict):\n        treelist = [*treelist.values()]\n    else:\n        treelist = [treelist]\n"
REST = "            ActivityClass += d[\"ActivityClass\"]\n            ActivityName += d[\"ActivityName\"]\n            ParentLevel += d[\"ParentLevel\"]\n"
CASES = [
    ("bug", I, [(N, N.replace('d["ParentId"][n:]', 'd["ParentId"][1:]'))]),
    ("bug", I, [(N, '            ParentId += [act.id] * len(d["ParentId"])\n            ParentName += [act.name] * len(d["ParentName"])\n')]),
    ("bug", I, [(N, '            ParentId += [x.id for x in act.sub_processes] + d["ParentId"][len(act.sub_processes):]\n            ParentName += [act.name] * len(act.sub_processes) + d["ParentName"][len(act.sub_processes):]\n')]),
    ("bug", I, [(D, D.replace("depth + 1", "depth"))]),
    ("bug", I, [(D, D.replace(", depth + 1", ""))]),
    ("bug", I, [(N, N.replace("[act.name] * n", "[act.id] * n"))]),
    ("bug", I, [("            activity += d[\"activity\"]\n", "            activity += act.sub_processes\n")]),
    ("bug", I, [(REST, REST.replace("ActivityClass += d[\"ActivityClass\"]", "ActivityClass += d[\"ActivityName\"]"))]),
    ("bug", I, [(REST, REST.replace("            ParentLevel += d[\"ParentLevel\"]\n", ""))]),
    ("bug", I, [(REST, REST.replace("ParentLevel += d[\"ParentLevel\"]", "ParentLevel += [depth + 1] * len(d[\"ParentLevel\"])"))]),
    ("bug", I, [("    ActivityName = [x.name for x in treelist]", "    ActivityName = [x.id for x in treelist]")]),
    ("bug", I, [("        treelist = [*treelist.values()]", "        treelist = [*treelist.keys()]")]),
    ("bug", I, [("    activity = [x for x in treelist]", "    activity = [x for x in treelist if hasattr(x, 'id')]")]),
    ("bug", I, [("    activity = [x for x in treelist]", "    activity = sorted([x for x in treelist], key=lambda x: x.name)")]),
    ("bug", I, [("type(x).__name__", "str(x)")]),
    ("bug", I, [("    ParentId = [\n        None,\n    ]", "    ParentId = [\n        0,\n    ]")]),
    ("bug", I, [('        "ParentId": ParentId,\n', '        "ParentId": ParentName,\n')]),
    ("bug", I, [("        if hasattr(act, \"sub_processes\"):\n", "        if hasattr(act, \"sub_processes\") and depth == 0:\n")]),
    ("bug", I, [(REST, REST + "            break\n")]),
    ("bug", I, [(N, N.replace("[act.id] * n", "[treelist[0].id] * n"))]),
    ("same", I, [("    for i, act in enumerate(treelist):\n", "    for act in treelist:\n")]),
    ("same", I, [(REST, "            for column, key in ((ActivityClass, \"ActivityClass\"), (ActivityName, \"ActivityName\"), (ParentLevel, \"ParentLevel\")):\n                column.extend(d[key])\n")]),
    ("same", I, [(HEAD, "    treelist = _as_list(treelist)\n"), ("def get_tree_as_list(", "def _as_list(tree):\n    if isinstance(tree, dict):\n        return list(tree.values())\n    if not isinstance(tree, list):\n        return [tree]\n    return tree\n\n\ndef get_tree_as_list(")]),
    ("same", I, [("        if hasattr(act, \"sub_processes\"):\n", "        if not hasattr(act, \"sub_processes\"):\n            continue\n        else:\n")]),
    ("same", I, [("    ParentLevel = [\n        depth,\n    ] * len(ActivityID)\n", "    ParentLevel = [depth for _ in treelist]\n")]),
    ("same", I, [("    activity = [x for x in treelist]", "    activity = list(treelist)"), ("type(x).__name__", "x.__class__.__name__")]),
    ("same", I, [("    ActivityID = [x.id for x in treelist]\n    ActivityName = [x.name for x in treelist]\n", "    ActivityID = []\n    ActivityName = []\n    for x in treelist:\n        ActivityID.append(x.id)\n        ActivityName.append(x.name)\n")]),
    ("same", I, [(N, '            subs = act.sub_processes\n            ParentId.extend(act.id for _ in subs)\n            ParentId.extend(d["ParentId"][len(subs):])\n            ParentName += [act.name for _ in subs]\n            ParentName += d["ParentName"][len(subs):]\n')]),
]

F = "io.py"
SUB = "        if hasattr(act, \"sub_processes\"):\n            d = get_tree_as_list(act.sub_processes, depth + 1)\n"
RET = "    return {\n        \"ActivityID\": ActivityID,\n"
CASES += [
    ("bug", F, [(SUB, "        if hasattr(act, \"sub_processes\") and len(act.sub_processes) > 1:\n            d = get_tree_as_list(act.sub_processes, depth + 1)\n")]),
    ("bug", F, [(SUB, "        if hasattr(act, \"sub_processes\") and act.name not in ActivityName[:i]:\n            d = get_tree_as_list(act.sub_processes, depth + 1)\n")]),
    ("bug", F, [(SUB, "        if type(act).__name__ in (\"SequentialActivity\", \"WhileActivity\", \"ParallelActivity\"):\n            d = get_tree_as_list(act.sub_processes, depth + 1)\n")]),
    ("bug", F, [(SUB, "        if hasattr(act, \"sub_processes\"):\n            d = get_tree_as_list(list(set(act.sub_processes)), depth + 1)\n")]),
    ("bug", F, [(SUB, "        if hasattr(act, \"sub_processes\"):\n            d = get_tree_as_list(act.sub_processes, depth + i)\n")]),
    ("bug", F, [(SUB, "        if hasattr(act, \"sub_processes\"):\n            if depth > 2:\n                continue\n            d = get_tree_as_list(act.sub_processes, depth + 1)\n")]),
    ("bug", F, [("    for i, act in enumerate(treelist):\n", "    for i, act in enumerate({x.name: x for x in treelist}.values()):\n")]),
    ("bug", F, [("    for i, act in enumerate(treelist):\n", "    for i, act in enumerate(treelist[::-1]):\n"), ("    activity = [x for x in treelist]\n", "    activity = [x for x in treelist]\n")]) if False else
    ("bug", F, [("    ActivityID = [x.id for x in treelist]\n", "    ActivityID = [str(x.id)[:8] for x in treelist]\n")]),
    ("bug", F, [("    ActivityName = [x.name for x in treelist]\n", "    ActivityName = [x.name.strip() for x in treelist]\n")]),
    ("bug", F, [("    ActivityClass = [type(x).__name__ for x in treelist]\n", "    ActivityClass = [type(x).__mro__[1].__name__ for x in treelist]\n")]),
    ("bug", F, [("    ParentLevel = [\n        depth,\n    ] * len(ActivityID)\n", "    ParentLevel = [\n        max(depth, 1),\n    ] * len(ActivityID)\n")]),
    ("bug", F, [("    ParentLevel = [\n        depth,\n    ] * len(ActivityID)\n", "    ParentLevel = [\n        depth,\n    ] * len(set(ActivityID))\n")]),
    ("bug", F, [("            activity += d[\"activity\"]\n", "            activity += [x for x in d[\"activity\"] if x not in activity]\n")]),
    ("bug", F, [("            activity += d[\"activity\"]\n", "            activity = d[\"activity\"] + activity\n")]),
    ("bug", F, [("            ActivityID += d[\"ActivityID\"]\n", "            ActivityID[i + 1:i + 1] = d[\"ActivityID\"]\n")]),
    ("bug", F, [(RET, "    ActivityName = [f\"{n} ({i})\" if ActivityName.count(n) > 1 else n for i, n in enumerate(ActivityName)]\n" + RET)]),
    ("bug", F, [(RET, "    ParentName = [p or n for p, n in zip(ParentName, ActivityName)]\n" + RET)]),
    ("bug", F, [(RET, "    if depth == 0:\n        order = sorted(range(len(ActivityID)), key=ParentLevel.__getitem__)\n        activity = [activity[k] for k in order]\n" + RET)]),
    ("bug", F, [(RET, "    del activity[1000:]\n" + RET)]),
    ("bug", F, [(RET, "    if ParentId and ParentId[0] is None:\n        ParentId[0] = ActivityID[0]\n" + RET)]),
    ("bug", F, [("        \"ParentLevel\": ParentLevel,\n        \"activity\": activity,\n", "        \"ParentLevel\": [level + 1 if level else 0 for level in ParentLevel],\n        \"activity\": activity,\n")]),
    ("bug", F, [("        treelist = [*treelist.values()]\n\n", "        treelist = [*treelist.values()][:1] if depth else [*treelist.values()]\n        treelist = list(dict.fromkeys(treelist))\n\n")] if False else [("    activity = [x for x in treelist]\n", "    treelist = list(dict.fromkeys(treelist))\n    activity = [x for x in treelist]\n")]),
    ("bug", F, [("def get_tree_as_list(treelist, depth=0) -> dict:\n", "def get_tree_as_list(treelist, depth=1) -> dict:\n")]),
    # export functions
    ("bug", F, [("    df = pd.DataFrame(df)\n\n    if ofile:\n        df.to_csv(ofile, columns=keys, index=False)\n\n    return df\n", "    df = pd.DataFrame(df).drop_duplicates(\"ActivityName\")\n\n    if ofile:\n        df.to_csv(ofile, columns=keys, index=False)\n\n    return df\n")]),
    ("bug", F, [("    df = pd.DataFrame(get_tree_as_list(activities))\n\n    processor = [", "    df = pd.DataFrame(get_tree_as_list(activities)).sort_values(\"ActivityName\")\n\n    processor = [")]) if False else
    ("same", F, [("    for i, act in enumerate(treelist):\n", "    for act in list(treelist):\n")]),
    ("same", F, [(SUB, "        children = getattr(act, \"sub_processes\", None)\n        if children is not None:\n            d = get_tree_as_list(children, depth=depth + 1)\n")]),
    ("same", F, [("    return {\n        \"ActivityID\": ActivityID,\n        \"ActivityName\": ActivityName,\n        \"ActivityClass\": ActivityClass,\n        \"ParentId\": ParentId,\n        \"ParentName\": ParentName,\n        \"ParentLevel\": ParentLevel,\n        \"activity\": activity,\n    }\n", "    result = dict(ActivityID=ActivityID, ActivityName=ActivityName, ActivityClass=ActivityClass)\n    result.update(ParentId=ParentId, ParentName=ParentName)\n    result[\"ParentLevel\"] = ParentLevel\n    result[\"activity\"] = activity\n    return result\n")]),
    ("same", F, [("    activity = [x for x in treelist]\n    ActivityID = [x.id for x in treelist]\n", "    activity = [*treelist]\n    ActivityID = [x.id for x in activity]\n")]),
    ("same", F, [("    ParentLevel = [\n        depth,\n    ] * len(ActivityID)\n", "    ParentLevel = []\n    for _ in treelist:\n        ParentLevel.append(depth)\n")]),
    ("same", F, [("    if isinstance(treelist, list):\n        pass\n    elif isinstance(treelist, dict):\n        treelist = [*treelist.values()]\n    else:\n        treelist = [treelist]\n", "    if isinstance(treelist, dict):\n        treelist = list(treelist.values())\n    if not isinstance(treelist, list):\n        treelist = [treelist]\n")]),
    ("same", F, [("            ActivityClass += d[\"ActivityClass\"]\n            ActivityName += d[\"ActivityName\"]\n            ParentLevel += d[\"ParentLevel\"]\n", "            ActivityClass = ActivityClass + d[\"ActivityClass\"]\n            ActivityName = [*ActivityName, *d[\"ActivityName\"]]\n            ParentLevel.extend(d[\"ParentLevel\"])\n")]),
]
CASES = [c for i, c in enumerate(CASES) if i not in [45, 46]]
