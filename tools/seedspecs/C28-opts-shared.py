PROPERTY = 'C28'
NEEDS = 'two hosts of the same connector with different options'
BREAKS = 'a host is contacted with the ssh options of another host, too'
EDITS = [('src/fora/connectors/ssh.py', '        command = ["ssh"]\n        command.extend(self.ssh_opts)\n        command.append(self.url)\n', '        command = self.ssh_opts\n        command.insert(0, "ssh")\n        command.append(self.url)\n')]
# DEMO
from types import SimpleNamespace as N
import fora
from fora.connectors.ssh import SshConnector
fora.args = N(debug=False)
host = N(ssh_opts=["-v"], name="h", url="ssh://h")
c = SshConnector("ssh://h", host)
a = c.command()[:-1]
b = SshConnector("ssh://h", host).command()[:-1]
assert a == b == ["ssh", "-v", "ssh://h"], (a, b)
