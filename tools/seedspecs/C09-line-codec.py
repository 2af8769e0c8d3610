PROPERTY = "C09"
NEEDS = "a file with bytes that are not valid utf-8 in an unrelated line"
BREAKS = "unrelated lines are changed when the file is written back"
F = "src/fora/operations/files.py"
EDITS = [(F, '''orig_bytes.decode("utf-8", errors="surrogateescape")''', '''orig_bytes.decode("utf-8", errors="replace")''')]
# DEMO
from harness import *
from fora.operations import files
c = setup()
c.nodes["/d/f"] = node()
c.files["/d/f"] = b"a\xff\n"
files.line("/d/f", "b")
expect(c.uploads()[0][2] == b"a\xff\nb\n", "other lines must be kept")
