PROPERTY = "C04"
NEEDS = "an existing user that is a member of groups which were not requested"
BREAKS = "superfluous memberships are kept although the operation reports success"
F = "src/fora/operations/system.py"
EDITS = [(F, '''conn.run(["usermod", "--groups", ','.join(target_groups), "--", user])''', '''conn.run(["usermod", "--append", "--groups", ','.join(target_groups), "--", user])''')]
# DEMO
from harness import *
from fora.operations import system
c = setup()
c.users["u"] = UserEntry(name="u", uid=5, group="u", gid=5, groups=["wheel", "x"], password_hash="!", gecos="", home="/home/u", shell="/bin/sh")
system.user("u", groups=["x"])
cmds = c.argv("usermod")
expect(len(cmds) == 1 and "--groups" in cmds[0] and "--append" not in cmds[0] and "-a" not in cmds[0], "the group list must be replaced")
