B = "model/base_activities.py"
ACT = '''                if activity_from_id is not None:
                    activity_ = activity_from_id
                elif activity_from_name is not None:
                    activity_ = activity_from_name
                else:
                    raise Exception('''
ALL = '''                return self.env.all_of(
                    [activity_item.main_process for activity_item in activity_]
                )
'''
OPS = '''                if (
                    expr.get("state") in ["gt", "ge", "lt", "le"]
                    and expr.get("level") is not None
                ):
'''
TIME = '''                start = expr.get("start_time")
                return self.env.timeout(max(start - self.env.now, 0), value=self.id)
'''
CASES = [
    ("bug", B, [("            return self.env.all_of([self.parse_expression(item) for item in expr])", "            return self.env.any_of([self.parse_expression(item) for item in expr])")]),
    ("bug", B, [("for item in expr[\"and\"]", "for item in expr[\"and\"][1:]")]),
    ("bug", B, [("return self.env.any_of(\n                    [self.parse_expression(item) for item in expr[\"or\"]]", "return self.env.all_of(\n                    [self.parse_expression(item) for item in expr[\"or\"]]")]),
    ("bug", B, [("expr.get(\"id_\", \"default\")", "expr.get(\"id\", \"default\")")]),
    ("bug", B, [("                        id_=id_,\n                    )\n                elif", "                    )\n                elif")]),
    ("bug", B, [("get_full_event(id_=id_)", "get_full_event()")]),
    ("bug", B, [("expr[\"state\"] == \"empty\":\n                    return obj.container.get_empty_event", "expr[\"state\"] == \"empty\":\n                    return obj.container.get_full_event")]),
    ("bug", B, [(OPS, OPS.replace('["gt", "ge", "lt", "le"]', '["gt", "lt"]'))]),
    ("bug", B, [(OPS, OPS.replace("expr.get(\"level\") is not None", "expr.get(\"level\")"))]),
    ("bug", B, [("operator=expr[\"state\"],", "operator=\"ge\" if expr[\"state\"].startswith(\"g\") else \"le\",")]),
    ("bug", B, [(ACT, ACT.replace("activity_from_id is not None", "activity_from_name is not None").replace("                    activity_ = activity_from_id\n", "                    activity_ = activity_from_name\n", 1).replace("elif activity_from_name is not None:\n                    activity_ = activity_from_name", "elif activity_from_id is not None:\n                    activity_ = activity_from_id"))]),
    ("bug", B, [("[activity_item.main_process for activity_item in activity_]", "[activity_item.done_event for activity_item in activity_]")]),
    ("bug", B, [(ALL, "                return list(activity_)[0].main_process\n")]),
    ("bug", B, [(ALL, ALL.replace("for activity_item in activity_]", "for activity_item in activity_ if activity_item is not self]"))]),
    ("bug", B, [("                key = expr.get(\"ID\", expr.get(\"name\"))\n", "                key = expr.get(\"name\", expr.get(\"ID\"))\n")]),
    ("bug", B, [(TIME, TIME.replace("max(start - self.env.now, 0)", "start"))]),
    ("bug", B, [(TIME, TIME.replace("max(start - self.env.now, 0)", "abs(start - self.env.now)"))]),
    ("bug", B, [("                return self.env.timeout(max(start", "                if start < self.env.now:\n                    raise ValueError(start)\n                return self.env.timeout(max(start")]),
    ("bug", B, [("                raise ValueError\n\n            if expr.get(\"type\") == \"activity\"", "                return self.env.event()\n\n            if expr.get(\"type\") == \"activity\"")]),
    ("bug", B, [("                if expr.get(\"state\") != \"done\":", "                if expr.get(\"state\") not in (\"done\", None):")]),
    ("bug", B, [("            raise ValueError\n\n        raise ValueError(", "            return self.env.event().succeed()\n\n        raise ValueError(")]),
    ("bug", B, [("            if \"and\" in expr:", "            if \"and\" in expr and len(expr[\"and\"]) > 1:")]),
    ("same", B, [("            return self.env.all_of([self.parse_expression(item) for item in expr])", "            return self.env.all_of(list(map(self.parse_expression, expr)))")]),
    ("same", B, [(ACT, '''                activity_ = activity_from_id
                if activity_ is None:
                    activity_ = activity_from_name
                if activity_ is None:
                    raise Exception(''')]),
    ("same", B, [(TIME, '''                delay = expr.get("start_time") - self.env.now
                if delay < 0:
                    delay = 0
                return self.env.timeout(delay, value=self.id)
''')]),
    ("same", B, [(ALL, '''                processes = []
                for activity_item in activity_:
                    processes.append(activity_item.main_process)
                return self.env.all_of(processes)
''')]),
    ("same", B, [(OPS, '''                operator = expr.get("state")
                if operator in ("le", "lt", "ge", "gt") and expr.get("level") is not None:
''')]),
    ("same", B, [("                key = expr.get(\"ID\", expr.get(\"name\"))\n", "                key = expr[\"ID\"] if \"ID\" in expr else expr.get(\"name\")\n")]),
    ("same", B, [("            if expr.get(\"type\") == \"container\":\n                id_ = expr.get(\"id_\", \"default\")\n                obj = expr[\"concept\"]\n", "            if expr.get(\"type\") == \"container\":\n                container_id = expr.get(\"id_\", \"default\")\n                id_ = container_id\n                obj = expr[\"concept\"]\n")]),
    ("same", B, [("            if \"and\" in expr:\n                return self.env.all_of(\n                    [self.parse_expression(item) for item in expr[\"and\"]]\n                )\n", "            if \"and\" in expr:\n                return self.parse_expression(list(expr[\"and\"]))\n")]),
    ("same", B, [("                raise ValueError\n\n            if expr.get(\"type\") == \"activity\"", "                raise ValueError(f\"Unknown state {expr['state']}\")\n\n            if expr.get(\"type\") == \"activity\"")]),
]
