PROPERTY = "C01"
NEEDS = "a dry run of files.line with a backup on an existing file"
BREAKS = "the backup is created in a dry run"
F = "src/fora/operations/files.py"
EDITS = [(F, '''        # Apply actions to reach desired state, but only if we are not doing a dry run
        if not fora.args.dry:
            if orig_bytes is None:
                conn.upload(''', '''        if not fora.args.dry or backup:
            if orig_bytes is None:
                conn.upload(''')]
# DEMO
from harness import *
from fora.operations import files
c = setup()
c.nodes["/d/f"] = node()
c.files["/d/f"] = b"a\n"
fora.args.dry = True
files.line("/d/f", "b", backup=True)
expect(not c.argv("cp") and not c.uploads(), "a dry run must not create a backup")
