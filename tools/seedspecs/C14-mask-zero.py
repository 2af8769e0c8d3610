PROPERTY = 'C14'
NEEDS = 'an invalid mode that is given together with a valid umask'
BREAKS = 'only some of the masks are validated'
EDITS = [('src/fora/connection.py', '        check_mask(settings.dir_mode, "dir_mode")\n', '        check_mask(settings.file_mode, "dir_mode")\n')]
# DEMO
from harness import *
c = setup()
from fora.remote_settings import RemoteSettings
try:
    fora.host.connection.resolve_defaults(RemoteSettings(file_mode="600", dir_mode="789", umask="077"))
except ValueError:
    pass
else:
    raise SystemExit("an invalid dir_mode is accepted")
