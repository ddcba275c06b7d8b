B = "model/base_activities.py"
BA = "model/basic_activity.py"
M = "model/move_activity.py"
SRT = 'self.plugins = sorted(self.plugins, key=lambda x: x["priority"])'
APP = '        self.plugins.append({"priority": priority, "plugin": plugin})\n        ' + SRT
POST = '''        for item in self.plugins:
            yield from item["plugin"].post_process(*args, **kwargs)'''
PRE = '''        for item in self.plugins:
            yield from item["plugin"].pre_process(**args_data)'''
CASES = [
    ("bug", B, [(SRT, SRT[:-1] + ", reverse=True)")]),
    ("bug", B, [("        " + SRT + "\n", "")]),
    ("bug", B, [(SRT, SRT.replace('x["priority"]', '-x["priority"]'))]),
    ("bug", B, [(POST, POST.replace("self.plugins", "reversed(self.plugins)"))]),
    ("bug", B, [(POST, POST + "\n            break")]),
    ("bug", B, [(POST, POST.replace("self.plugins", "self.plugins[1:]"))]),
    ("bug", BA, [('        args_data["start_activity"] = start_basic\n', '        args_data["start_activity"] = start_time\n')]),
    ("bug", M, [('        args_data["start_preprocessing"] = start_time\n', '        args_data["start_preprocessing"] = start_mover\n')]),
    ("bug", M, [('        yield from self.post_process(**args_data)\n', '        if self.duration is None:\n            yield from self.post_process(**args_data)\n')]),
    ("bug", B, [(SRT, 'if len(self.plugins) > 2:\n            ' + SRT)]),
    ("bug", "model/while_activity.py", [('        yield from self.pre_process(args_data)\n', '')]),
    ("bug", "model/sequential_activity.py", [('        yield from self.post_process(**args_data)\n', '        yield from self.pre_process(args_data)\n')]),
    ("same", B, [(SRT, 'self.plugins.sort(key=lambda p: p["priority"])')]),
    ("same", B, [(POST, '''        for plugin in [item["plugin"] for item in self.plugins]:
            yield from plugin.post_process(*args, **kwargs)''')]),
    ("same", B, [(PRE, '''        for i in range(len(self.plugins)):
            plugin = self.plugins[i]["plugin"]
            yield from plugin.pre_process(**args_data)''')]),
    ("same", B, [(APP, '        self.plugins = sorted(\n            self.plugins + [{"priority": priority, "plugin": plugin}], key=lambda x: x["priority"]\n        )')]),
    ("same", BA, [('''        args_data["start_preprocessing"] = start_time
        args_data["start_activity"] = start_basic
        yield from self.post_process(**args_data)''', '''        yield from self.post_process(start_activity=start_basic, start_preprocessing=start_time, **args_data)''')]),
    ("same", BA, [('''        args_data["start_preprocessing"] = start_time
        args_data["start_activity"] = start_basic
        yield from self.post_process(**args_data)''', '''        args_data.update(start_activity=start_basic, start_preprocessing=start_time)
        yield from self.post_process(**args_data)''')]),
    ("same", B, [(SRT, 'self.plugins = sorted(self.plugins, key=operator.itemgetter("priority"))'), ("import simpy\n", "import operator\n\nimport simpy\n")]),
]

BA = "model/base_activities.py"
MV = "model/move_activity.py"
CASES += [
    ("bug", BA, [('key=lambda x: x["priority"])', 'key=lambda x: -x["priority"])')]),
    ("bug", BA, [('''        for item in self.plugins:
            yield from item["plugin"].post_process(''', '''        for item in reversed(self.plugins):
            yield from item["plugin"].post_process(''')]),
    ("bug", BA, [('''        for item in self.plugins:
            yield from item["plugin"].pre_process(**args_data)
''', '''        for item in self.plugins[:1]:
            yield from item["plugin"].pre_process(**args_data)
''')]),
    ("bug", BA, [('            yield from item["plugin"].pre_process(**args_data)\n', '            yield from item["plugin"].pre_process(**args_data)\n            if args_data["env"].now > 0:\n                break\n')]),
    ("bug", BA, [('        self.plugins.append({"priority": priority, "plugin": plugin})\n', '        self.plugins = [p for p in self.plugins if p["priority"] != priority]\n        self.plugins.append({"priority": priority, "plugin": plugin})\n')]),
    ("bug", BA, [('        self.plugins.append({"priority": priority, "plugin": plugin})\n', '        if not any(type(p["plugin"]) is type(plugin) for p in self.plugins):\n            self.plugins.append({"priority": priority, "plugin": plugin})\n')]),
    ("bug", BA, [('            yield from item["plugin"].post_process(*args, **kwargs)\n', '            if kwargs.get("start_activity") != kwargs.get("start_preprocessing") or item["priority"]:\n                yield from item["plugin"].post_process(*args, **kwargs)\n')]),
    ("bug", MV, [('args_data["start_activity"] = ', 'args_data["start_activity"] = start_time if True else ')]),
    ("bug", "model/while_activity.py", [('        yield from self.pre_process(args_data)\n', '        if not activity_log.logbook:\n            yield from self.pre_process(args_data)\n')]),
    ("same", BA, [('''        for item in self.plugins:
            yield from item["plugin"].pre_process(**args_data)
''', '''        for plugin in [item["plugin"] for item in self.plugins]:
            yield from plugin.pre_process(**args_data)
''')]),
    ("same", BA, [('''        self.plugins.append({"priority": priority, "plugin": plugin})
        self.plugins = sorted(self.plugins, key=lambda x: x["priority"])
''', '''        self.plugins.append(dict(priority=priority, plugin=plugin))
        self.plugins.sort(key=lambda item: item["priority"])
''')]),
    ("same", BA, [('''        self.plugins.append({"priority": priority, "plugin": plugin})
        self.plugins = sorted(self.plugins, key=lambda x: x["priority"])
''', '''        registered = self.plugins + [{"priority": priority, "plugin": plugin}]
        self.plugins = sorted(registered, key=lambda x: x["priority"])
''')]),
    ("same", BA, [('''        for item in self.plugins:
            yield from item["plugin"].post_process(*args, **kwargs)
''', '''        for item in self.plugins:
            yield from self._post(item["plugin"], *args, **kwargs)

    def _post(self, plugin, *args, **kwargs):
        yield from plugin.post_process(*args, **kwargs)
''')]),
]
