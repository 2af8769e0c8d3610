PROPERTY = 'C30'
NEEDS = 'an answer that only begins like a yes'
BREAKS = 'files are created'
EDITS = [('src/fora/example_deploys.py', '        if response.lower() not in ["y", "yes"]:', '        if not response.lower().startswith("y"):')]
# DEMO
import os, shutil, sys, tempfile
import builtins
import fora.example_deploys as e
d = tempfile.mkdtemp()
cwd = os.getcwd()
try:
    os.chdir(d)
    open("deploy.py", "w").write("mine")
    builtins.input = lambda p="": "yikes, no"
    try:
        e.init_deploy_structure("minimal")
    except SystemExit as x:
        assert x.code == 1, x.code
    assert os.listdir(d) == ["deploy.py"] and open("deploy.py").read() == "mine", os.listdir(d)
finally:
    os.chdir(cwd)
    shutil.rmtree(d)
