B = "model/base_activities.py"
M = "model/move_activity.py"
S = "model/shift_amount_activity.py"
RQ = '''        if resource not in requested_resources:
            requested_resources[resource] = resource.request()
            yield requested_resources[resource]
'''
RL = '''        if resource in requested_resources.keys():
            resource.release(requested_resources[resource])
            del requested_resources[resource]'''
KEEP = '''            if isinstance(kept_resource, list):
                if resource in [item.resource for item in kept_resource]:
                    return
            elif resource == kept_resource.resource or resource == kept_resource:
                return
'''
MR = "        yield from self._request_resource(self.requested_resources, self.mover.resource)\n\n"
CASES = [
    ("bug", B, [("            yield requested_resources[resource]\n", "")]),
    ("bug", B, [(RQ, '''        requested_resources[resource] = resource.request()
        yield requested_resources[resource]
''')]),
    ("bug", B, [(RL, RL.replace("            del requested_resources[resource]", "            pass"))]),
    ("bug", B, [(RL, RL.replace("            resource.release(requested_resources[resource])\n", ""))]),
    ("bug", B, [("if resource in [item.resource for item in kept_resource]", "if resource in [item.resource for item in kept_resource[:1]]")]),
    ("bug", B, [("if resource in [item.resource for item in kept_resource]", "if resource not in [item.resource for item in kept_resource]")]),
    ("bug", M, [(MR, "")]),
    ("bug", M, [("            self.requested_resources, self.mover.resource, self.keep_resources\n", "            self.requested_resources, self.mover.resource\n")]),
    ("bug", M, [('''        self._release_resource(
            self.requested_resources, self.mover.resource, self.keep_resources
        )''', ''), ("        start_mover = env.now\n", '''        start_mover = env.now
        self._release_resource(
            self.requested_resources, self.mover.resource, self.keep_resources
        )
''')]),
    ("bug", S, [('''        if self.origin.resource in self.requested_resources:
            self._release_resource(
                self.requested_resources, self.origin.resource, self.keep_resources
            )
''', '')]),
    ("bug", S, [('''            yield from self._request_resource(
                self.requested_resources, self.origin.resource
            )
''', '')]),
    ("bug", S, [("        yield from self._request_resource(\n            self.requested_resources, self.destination.resource", "        self._request_resource(\n            self.requested_resources, self.destination.resource")]),
    ("bug", S, [("        if self.processor.resource in self.requested_resources:\n            self._release", "        if self.processor.resource in self.requested_resources and self.phase != 'loading':\n            self._release")]),
    ("bug", B, [(RQ, '''        if resource not in requested_resources:
            request = resource.request()
            yield request
''')]),
    ("same", B, [(RQ, '''        if resource in requested_resources:
            return
        request = resource.request()
        requested_resources[resource] = request
        yield request
''')]),
    ("same", B, [(RL, '''        if resource in requested_resources:
            request = requested_resources.pop(resource)
            resource.release(request)''')]),
    ("same", B, [(RL, '''        if resource not in requested_resources:
            return

        request = requested_resources[resource]
        del requested_resources[resource]
        resource.release(request)''')]),
    ("same", B, [(KEEP, '''            if isinstance(kept_resource, list):
                for item in kept_resource:
                    if item.resource == resource:
                        return
            elif resource == kept_resource.resource or resource == kept_resource:
                return
''')]),
    ("same", B, [(KEEP, '''            kept_resources = kept_resource if isinstance(kept_resource, list) else [kept_resource]
            if any(item.resource == resource for item in kept_resources):
                return
''')]),
    ("same", S, [('''        if self.origin.resource in self.requested_resources:
            self._release_resource(
                self.requested_resources, self.origin.resource, self.keep_resources
            )
        if self.processor.resource in self.requested_resources:
            self._release_resource(
                self.requested_resources, self.processor.resource, self.keep_resources
            )
''', '''        for obj in [self.origin, self.processor]:
            if obj.resource in self.requested_resources:
                self._release_resource(
                    self.requested_resources, obj.resource, self.keep_resources
                )
''')]),
    ("same", S, [('''        if self.origin.resource in self.requested_resources:
            self._release_resource(
                self.requested_resources, self.origin.resource, self.keep_resources
            )
''', '''        self._release_resource(
            self.requested_resources, self.origin.resource, self.keep_resources
        )
''')]),
]

CASES += [
    ("bug", B, [("        if resource in requested_resources.keys():\n", "        if resource in requested_resources.keys() and resource.queue:\n")]),
    ("bug", B, [("        if resource in requested_resources.keys():\n", "        if resource in requested_resources.keys() and len(requested_resources) > 1:\n")]),
    ("bug", B, [("            requested_resources[resource] = resource.request()\n            yield requested_resources[resource]\n", "            request = resource.request()\n            yield request\n")]),
    ("bug", B, [("            requested_resources[resource] = resource.request()\n            yield requested_resources[resource]\n", "            requested_resources[resource] = resource.request()\n            if resource.count >= resource.capacity:\n                yield requested_resources[resource]\n")]),
    ("bug", B, [("        keep_resources = keep_resources if keep_resources is not None else []\n", "        keep_resources = [] if keep_resources is None else list(requested_resources)\n")]),
    ("bug", M, [("self.requested_resources, self.mover.resource", "{}, self.mover.resource")]),
    ("bug", S, [('''        self._release_resource(
            self.requested_resources, self.destination.resource, self.keep_resources
        )
''', '''        if self.destination is not self.processor:
            self._release_resource(
                self.requested_resources, self.destination.resource, self.keep_resources
            )
''')]) if False else ("bug", S, [("        self._release_resource(\n            self.requested_resources, self.destination.resource, self.keep_resources\n        )\n", "")]),
    ("bug", S, [('''            if self.origin.container.get_level(self.id_) < amount:
                # someone''', '''            if self.origin.container.get_level(self.id_) < amount:
                self.requested_resources.clear()
                # someone''')]),
    ("bug", B, [('''            elif resource == kept_resource.resource or resource == kept_resource:
''', '''            elif resource != kept_resource.resource:
''')]),
    ("bug", B, [("            resource.release(requested_resources[resource])\n            del requested_resources[resource]", "            resource.release(requested_resources.pop(resource))\n            requested_resources.clear()")]),
    ("bug", B, [("                if resource in [item.resource for item in kept_resource]:\n", "                if resource in [item.resource for item in kept_resource] or len(resource.users) > 1:\n")]),
    ("same", B, [("            resource.release(requested_resources[resource])\n            del requested_resources[resource]", "            request = requested_resources.pop(resource)\n            resource.release(request)")]),
    ("same", B, [("        if resource not in requested_resources:\n            requested_resources[resource] = resource.request()\n            yield requested_resources[resource]\n", "        if resource in requested_resources:\n            return\n        request = resource.request()\n        requested_resources[resource] = request\n        yield request\n")]),
    ("same", S, [('''        # release the unloader, self.destination and mover requests
        self._release_resource(
            self.requested_resources, self.destination.resource, self.keep_resources
        )
        if self.origin.resource in self.requested_resources:
            self._release_resource(
                self.requested_resources, self.origin.resource, self.keep_resources
            )
        if self.processor.resource in self.requested_resources:
            self._release_resource(
                self.requested_resources, self.processor.resource, self.keep_resources
            )
''', '''        # release the unloader, self.destination and mover requests
        for involved in (self.destination, self.origin, self.processor):
            self._release_resource(
                self.requested_resources, involved.resource, self.keep_resources
            )
''')]),
    ("same", B, [('''                if resource in [item.resource for item in kept_resource]:
                    return
''', '''                if any(resource is item.resource for item in kept_resource):
                    return
''')]),
    ("same", B, [('''        if kept_resource is not None:
            if isinstance(kept_resource, list):
                if resource in [item.resource for item in kept_resource]:
                    return
            elif resource == kept_resource.resource or resource == kept_resource:
                return

''', '''        if self._is_kept(resource, kept_resource):
            return

'''), ('''    def _release_resource(self, req''', '''    def _is_kept(self, resource, kept_resource):
        if kept_resource is None:
            return False
        if isinstance(kept_resource, list):
            return resource in [item.resource for item in kept_resource]
        return resource == kept_resource.resource or resource == kept_resource

    def _release_resource(self, req''')]),
    ("same", S, [('''            yield from self._request_resource(
                self.requested_resources, self.processor.resource
            )
''', '''            held = self.requested_resources
            yield from self._request_resource(held, self.processor.resource)
''')]),
]
