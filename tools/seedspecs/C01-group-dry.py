PROPERTY = "C01"
NEEDS = "a dry run of system.group for an existing group with a different gid"
BREAKS = "the gid of an existing group is modified although --dry was given"
F = "src/fora/operations/system.py"
EDITS = [(F, '''                conn.run(["groupdel", "--", group])
        elif present:
            # Group exists but we need to change some properties
            if op.changed("gid") and target_gid is not None:
                conn.run(["groupmod", "--gid", str(target_gid), "--", group])
''', '''                conn.run(["groupdel", "--", group])
    if present and not op.changed("exists") and target_gid is not None:
        if op.changed("gid"):
            conn.run(["groupmod", "--gid", str(target_gid), "--", group])
''')]
# DEMO
from harness import *
from fora.operations import system
c = setup()
c.groups["g"] = GroupEntry(name="g", gid=5, members=[])
fora.args.dry = True
r = system.group("g", gid=7)
expect(r.changed, "dry run reports the change")
expect(not c.argv("groupmod"), "a dry run must not run groupmod")
