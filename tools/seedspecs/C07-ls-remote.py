PROPERTY = "C07"
NEEDS = "a repository url beginning with a dash"
BREAKS = "git interprets the url as an option (for example --upload-pack=...)"
F = "src/fora/operations/git.py"
EDITS = [(F, '''"ls-remote", "--exit-code", "--", url,''', '''"ls-remote", "--exit-code", url,''')]
# DEMO
from harness import *
from fora.operations import git
c = setup()
c.replies.append((lambda a: "ls-remote" in a, 0, b"abc HEAD\n"))
git.repo("--upload-pack=touch /x", "/p")
for a in c.commands():
    for n, x in enumerate(a):
        if x.startswith("--upload-pack"):
            expect("--" in a[:n], "the url must not be parsed as an option")
