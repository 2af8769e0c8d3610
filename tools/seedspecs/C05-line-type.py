PROPERTY = "C05"
NEEDS = "a node that is neither a file nor a directory at the path, for example a link or a device"
BREAKS = "files.line overwrites through links, devices and pipes"
F = "src/fora/operations/files.py"
EDITS = [(F, '''            if stat.type != "file":
                return op.failure(f"path '{path}' exists but is not a file!")

            # Download the current file''', '''            if stat.type == "dir":
                return op.failure(f"path '{path}' exists but is not a file!")

            # Download the current file''')]
# DEMO
from harness import *
from fora.operations import files
c = setup()
c.nodes["/d/f"] = node("link", "777")
c.files["/d/f"] = b"a\n"
r = files.line("/d/f", "b", check=False)
expect(not r.success and not c.uploads(), "a link must not be replaced")
