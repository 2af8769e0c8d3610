PROPERTY = "C08"
NEEDS = "a failing submodule update when an existing repository is updated"
BREAKS = "the operation reports success although the submodules could not be updated"
F = "src/fora/operations/git.py"
EDITS = [(F, '''                conn.run(submodule_update_cmd)''', '''                conn.run(submodule_update_cmd, check=False)''')]
# DEMO
from harness import *
from fora.operations import git
c = setup()
c.nodes["/p"] = node("dir", "700")
c.nodes["/p/.git"] = node("dir", "700")
c.replies += [(lambda a: "ls-remote" in a, 0, b"abc HEAD\n"), (lambda a: "rev-parse" in a, 0, b"old\n"), (lambda a: "config" in a, 0, b"u\n"), (lambda a: "submodule" in a, 1, b"")]
try:
    r = git.repo("u", "/p", update_submodules=True)
except subprocess.CalledProcessError:
    r = None
expect(r is None or not r.success, "a failed command must not be reported as success")
