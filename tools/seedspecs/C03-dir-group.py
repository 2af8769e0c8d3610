PROPERTY = "C03"
NEEDS = "an existing directory which only differs in its group"
BREAKS = "the requested group of an existing directory is not set"
F = "src/fora/operations/files.py"
EDITS = [(F, '''                # Set correct owner and group, if needed
                if op.changed("owner") or op.changed("group"):
                    conn.run(["chown", f"{attr.owner}:{attr.group}", "--", path])

                # Touch directory if''', '''                # Set correct owner and group, if needed
                if op.changed("owner"):
                    conn.run(["chown", f"{attr.owner}:{attr.group}", "--", path])

                # Touch directory if''')]
# DEMO
from harness import *
from fora.operations import files
c = setup()
c.nodes["/d"] = node("dir", "700", "root", "users")
files.directory("/d")
expect(any("root:root" in a for a in c.commands()), "the group of the directory must be set")
