PROPERTY = "C13"
NEEDS = "a block with defaults that is left by an exception which the script handles"
BREAKS = "the defaults of the block stay active afterwards"
F = "src/fora/types.py"
EDITS = [(F, '''        _ = (exc_type, exc, traceback)
        self.obj._defaults_stack.pop()''', '''        _ = (exc, traceback)
        if exc_type is None or not issubclass(exc_type, Exception):
            self.obj._defaults_stack.pop()''')]
# DEMO
from harness import *
c = setup()
try:
    with fora.script.defaults(as_user="nobody"):
        raise ValueError("x")
except ValueError:
    pass
fora.host.connection.run(["true"])
expect([x for x in c.calls if x[0] == "run"][-1][2]["user"] != "nobody", "defaults must be restored after an exception")
