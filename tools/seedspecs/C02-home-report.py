PROPERTY = "C02"
NEEDS = "an existing user whose home is changed to the default for new users"
BREAKS = "a change of the home directory is reported, but not performed"
F = "src/fora/operations/system.py"
EDITS = [(F, '''            if op.changed("home"):
''', '''            if op.changed("home") and target_home != "/dev/null":
''')]
# DEMO
from harness import *
from fora.operations import system
c = setup()
c.users["u"] = UserEntry(name="u", uid=5, group="u", gid=5, groups=[], password_hash="!", gecos="", home="/home/u", shell="/bin/sh")
r = system.user("u", home="/dev/null")
expect(bool(c.argv("usermod")) == r.changed, "a reported change must have been performed")
