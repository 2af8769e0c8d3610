PROPERTY = 'C32'
NEEDS = "an empty file that didn't exist before (or is removed), with --diff"
BREAKS = "it's reported as modified"
EDITS = [('src/fora/logger.py', '    action = \'created\' if old is None else \'deleted\' if new is None else \'modified\'\n', '    action = \'created\' if not old else \'deleted\' if not new else \'modified\'\n')]
# DEMO
from fora import logger
assert logger.diff("f", b"", b"x", color=False)[1] == "modified: f", logger.diff("f", b"", b"x", color=False)
assert logger.diff("f", None, b"x", color=False)[1] == "created: f"
