H = "model/helpers.py"
GET = '''    for item in items:
        items.extend(getattr(item, "sub_processes", []))
    return items'''
LOOP = '''        for item in unregistered_items:
            try:
                item.register_process()
                registerd_items.append(item)
            except Exception as e:
                logger.info(e)
'''
CASES = [
    ("bug", H, [('        items = [i for i in items]\n', '        pass\n')]),
    ("bug", H, [(GET, '''    return items + [s for item in items for s in getattr(item, "sub_processes", [])]''')]),
    ("bug", H, [(GET, '''    for item in list(items):
        items.extend(getattr(item, "sub_processes", []))
    return items''')]),
    ("bug", H, [('''                item.register_process()
                registerd_items.append(item)''', '''                registerd_items.append(item)
                item.register_process()''')]),
    ("bug", H, [(LOOP, '''        for item in unregistered_items:
            try:
                item.register_process()
            except Exception as e:
                logger.info(e)
            registerd_items.append(item)
''')]),
    ("bug", H, [('    assert len(item_names) == len(set(item_names))\n', '')]),
    ("bug", H, [('''    else:
        raise ValueError(
            "Due to recursion in the events of the activities, not all the activities "
            "can be registered."
        )''', '''    else:
        logger.info("Not all activities are registered")''')]),
    ("bug", H, [('i for i in items if i.name not in [e.name for e in registerd_items]', 'i for i in items')]),
    ("bug", H, [("items = get_subprocesses(processes)", "items = get_subprocesses(processes)\n    unregistered = processes"),
                (LOOP, LOOP.replace("unregistered_items", "processes"))]),
    ("bug", H, [('    assert len(item_names) == len(set(item_names))\n', '    assert len(items) == len(set(items))\n')]),
    ("bug", H, [(LOOP, '''        for item in unregistered_items:
            item.register_process()
            registerd_items.append(item)
''')]),
    ("same", H, [(GET, '''    i = 0
    while i < len(items):
        items.extend(getattr(items[i], "sub_processes", []))
        i += 1
    return items''')]),
    ("same", H, [('''    if not isinstance(items, list):
        items = [items]
    else:
        # This creates a new list with the same items.
        items = [i for i in items]
''', '''    items = list(items) if isinstance(items, list) else [items]
''')]),
    ("same", H, [('''        if len(unregistered_items) == 0:
            break
''', '''        if not unregistered_items:
            return
'''), ('''    else:
        raise ValueError(''', '''    if True:
        raise ValueError(''')]),
    ("same", H, [('''        unregistered_items = [
            i for i in items if i.name not in [e.name for e in registerd_items]
        ]
''', '''        done = {e.name for e in registerd_items}
        unregistered_items = []
        for i in items:
            if i.name not in done:
                unregistered_items.append(i)
''')]),
    ("same", H, [('    assert len(item_names) == len(set(item_names))\n',
                  '    if len(set(item_names)) != len(item_names):\n        raise ValueError("Duplicate names")\n'),
                 (LOOP, '''        for item in unregistered_items:
            try:
                item.register_process()
            except Exception as e:
                logger.info(e)
                continue
            registerd_items.append(item)
''')]),
    ("same", H, [(GET, '''    for item in items:
        if not hasattr(item, "sub_processes"):
            continue
        for sub_process in item.sub_processes:
            items.append(sub_process)
    return items''')]),
    ("same", H, [(LOOP, '''        for item in unregistered_items:
            if _try_register(item):
                registerd_items.append(item)
'''), ('''def register_processes(processes):''', '''def _try_register(item):
    try:
        item.register_process()
    except Exception as e:
        logger.info(e)
        return False
    return True


def register_processes(processes):''')]),
]

H = "model/helpers.py"
TRY = '''            try:
                item.register_process()
                registerd_items.append(item)
            except Exception as e:
                logger.info(e)
'''
CASES += [
    ("bug", H, [(TRY, TRY.replace("                item.register_process()\n                registerd_items.append(item)\n", "                registerd_items.append(item)\n                item.register_process()\n"))]),
    ("bug", H, [("    for _ in range(100):\n", "    for _ in range(len(processes)):\n")]),
    ("bug", H, [("    for _ in range(100):\n", "    for _ in range(2):\n")]),
    ("bug", H, [("    assert len(item_names) == len(set(item_names))\n", "    assert len(item_names) == len(item_names)\n")]),
    ("bug", H, [("    item_names = [i.name for i in items]\n", "    item_names = [i.name for i in processes]\n")]),
    ("bug", H, [("        items = [i for i in items]\n", "        items = items\n")]),
    ("bug", H, [("    for item in items:\n        items.extend(", "    for item in list(items):\n        items.extend(")]),
    ("bug", H, [("i for i in items if i.name not in", "i for i in items if i not in")]) if False else ("bug", H, [("i for i in items if i.name not in [e.name for e in registerd_items]", "i for i in items if i.name not in [e.name for e in registerd_items[-10:]]")]),
    ("bug", H, [("    else:\n        raise ValueError(\n            \"Due", "    if len(registerd_items) == 0:\n        raise ValueError(\n            \"Due")]),
    ("bug", H, [("            except Exception as e:\n                logger.info(e)\n", "            except Exception as e:\n                logger.info(e)\n                break\n")]) if False else ("bug", H, [("            except Exception as e:\n                logger.info(e)\n", "            except Exception as e:\n                logger.info(e)\n                items.remove(item)\n")]),
    ("bug", H, [("        items.extend(getattr(item, \"sub_processes\", []))\n", "        if item.name not in [i.name for i in items[:-1]]:\n            items.extend(getattr(item, \"sub_processes\", []))\n")]),
    ("same", H, [("        unregistered_items = [\n            i for i in items if i.name not in [e.name for e in registerd_items]\n        ]\n", "        registered_names = {e.name for e in registerd_items}\n        unregistered_items = [i for i in items if i.name not in registered_names]\n")]),
    ("same", H, [(TRY, '''            try:
                item.register_process()
            except Exception as e:
                logger.info(e)
            else:
                registerd_items.append(item)
''')]),
    ("same", H, [(TRY, '''            try:
                item.register_process()
            except Exception as e:
                logger.info(e)
                continue
            registerd_items.append(item)
''')]),
    ("same", H, [('''    if not isinstance(items, list):
        items = [items]
    else:
        # This creates a new list with the same items.
        items = [i for i in items]
''', '''    items = list(items) if isinstance(items, list) else [items]
''')]),
    ("same", H, [('''    for item in items:
        item.main_process = None

''', '''    def forget(activities):
        for activity in activities:
            activity.main_process = None

    forget(items)

''')]),
    ("same", H, [('''        unregistered_items = [
            i for i in items if i.name not in [e.name for e in registerd_items]
        ]
        if len(unregistered_items) == 0:
            break
''', '''        if len(registerd_items) == len(items):
            break
        unregistered_items = [
            i for i in items if i.name not in [e.name for e in registerd_items]
        ]
''')]),
]
CASES = [c for i, c in enumerate(CASES) if i not in [28]]
