PROPERTY = 'C40'
NEEDS = 'an unhandled error in a script that was run by another script'
BREAKS = 'the scripts that were running are remembered by reference, and gone when the error is reported'
EDITS = [('src/fora/loader.py', "setattr(e, 'script_stack', script_stack.copy())", "setattr(e, 'script_stack', script_stack)")]
# DEMO
from harness import *
import contextlib, inspect, io, os, shutil, tempfile
import fora.utils
setup()
fora.script = None
d = tempfile.mkdtemp()
err = io.StringIO()
try:
    with open(d + "/outer_script.py", "w") as f:
        f.write("from fora.operations import local\nlocal.script(script='inner_script.py')\n")
    with open(d + "/inner_script.py", "w") as f:
        f.write("raise RuntimeError('boom')\n")
    try:
        fora.loader.run_script(d + "/outer_script.py", inspect.getouterframes(inspect.currentframe())[0], name="demo")
    except RuntimeError as e:
        with contextlib.redirect_stderr(err):
            fora.utils.print_exception(type(e), e, e.__traceback__)
finally:
    shutil.rmtree(d)
assert "boom" in err.getvalue() and "outer_script.py" in err.getvalue(), err.getvalue()
