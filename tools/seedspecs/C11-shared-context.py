PROPERTY = 'C11'
NEEDS = 'one context dictionary used for the templates of several hosts'
BREAKS = 'the variables of a host are stored in the given context'
EDITS = [('src/fora/operations/files.py', '    if context is not None:\n        dvars.update(context)\n', '    if context is not None:\n        for attr, value in dvars.items():\n            context.setdefault(attr, value)\n        dvars = context\n')]
# DEMO
from harness import *
c = setup()
from fora.operations import files
ctx = {"a": 1}
files.template_content("{{ a }}", "/f", context=ctx)
assert ctx == {"a": 1}, sorted(ctx)
