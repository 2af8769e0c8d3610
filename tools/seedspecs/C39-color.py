PROPERTY = 'C39'
NEEDS = '--no-color on a terminal, without NO_COLOR'
BREAKS = 'the environment decides about colors whatever the command line says'
EDITS = [('src/fora/main.py', """    if os.getenv("NO_COLOR") is not None or not is_a_tty:
        args.no_color = True
""", """    args.no_color = os.getenv("NO_COLOR") is not None or not is_a_tty
""")]
# DEMO
import io, os, sys
import fora, fora.main
os.environ.pop("NO_COLOR", None)
seen = {}
fora.main.main_run = lambda args: seen.update(vars(args))
class Terminal(io.StringIO):
    def isatty(self):
        return True
real, sys.stdout = sys.stdout, Terminal()
try:
    fora.main.main(["--no-color", "inventory.py", "script.py"])
finally:
    sys.stdout = real
assert seen["no_color"] is True, seen
