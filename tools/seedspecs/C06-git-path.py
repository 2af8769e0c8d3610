PROPERTY = "C06"
NEEDS = "a relative path for git.repo"
BREAKS = "a relative path is accepted, its meaning depends on the remote working directory"
F = "src/fora/operations/git.py"
EDITS = [(F, '''    check_absolute_path(path, f"{path=}")
''', '''    check_absolute_path(os.path.join("/", path), f"{path=}")
''')]
# DEMO
from harness import *
from fora.operations import git
c = setup()
c.replies.append((lambda a: "ls-remote" in a, 0, b"abc HEAD\n"))
try:
    git.repo("https://example.com/x", "relative/path")
except ValueError:
    pass
expect(not c.calls, "a relative path must be rejected before anything happens")
