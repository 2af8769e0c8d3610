PROPERTY = "C10"
NEEDS = "an operation called with check=False that raises an unrelated exception"
BREAKS = "programming errors are turned into a failed result and the script continues"
F = "src/fora/operations/api.py"
EDITS = [(F, '''            except Exception as e:
                ret = op.failure(str(e))
                raise
''', '''            except Exception as e:
                ret = op.failure(str(e))
                if check:
                    raise
''')]
# DEMO
from harness import *
from fora.operations import files
c = setup()
c.nodes["/d"] = KeyError("unrelated")
try:
    files.directory("/d", check=False)
except KeyError:
    sys.exit(0)
expect(False, "unrelated exceptions must propagate")
