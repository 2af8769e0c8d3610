From d271fdcc92e5c9d67ca3c912a681a8546468b291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:11 +0000
Subject: [PATCH 01/42] fix: set the mode of files after their ownership, so
 setuid/setgid bits survive chown

---
 src/fora/operations/files.py | 8 ++++----
 src/fora/operations/utils.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 59659c8..f336859 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -215,13 +215,13 @@ def file(path: str,
                 if op.changed("exists") or op.changed("touched"):
                     conn.run(["touch", "--", path])
 
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.file_mode, "--", path])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", path])
+
+                # Set correct mode, if needed. A previous chown may have cleared setuid and setgid bits.
+                if op.changed("mode") or op.changed("owner") or op.changed("group"):
+                    conn.run(["chmod", attr.file_mode, "--", path])
             else:
                 # Remove file if it should not be present
                 if op.changed("exists"):
diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index 3bceae8..e556c53 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -168,14 +168,14 @@ def save_content(op: Operation,
                         owner=attr.owner,
                         group=attr.group)
             else:
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.file_mode, "--", dest])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", dest])
 
+                # Set correct mode, if needed. A previous chown may have cleared setuid and setgid bits.
+                if op.changed("mode") or op.changed("owner") or op.changed("group"):
+                    conn.run(["chmod", attr.file_mode, "--", dest])
+
         return op.success()
 
 def check_absolute_path(path: str, path_desc: str) -> None:
-- 
2.43.0


From a3b37fc0f493ae5ac94323eec41371a76ef85a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:11 +0000
Subject: [PATCH 02/42] fix: replace existing links to directories and restore
 the ownership of replaced links

---
 src/fora/operations/files.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index f336859..8b838d7 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -302,10 +302,10 @@ def link(path: str,
             if present:
                 # Create link if it doesn't exist
                 if op.changed("target"):
-                    conn.run(["ln", "-sf", "--", target, path])
+                    conn.run(["ln", "-sfn", "--", target, path])
 
-                # Set correct owner and group, if needed
-                if op.changed("owner") or op.changed("group"):
+                # Set correct owner and group, if needed. A replaced link has been recreated by the executing user.
+                if op.changed("target") or op.changed("owner") or op.changed("group"):
                     conn.run(["chown", "--no-dereference", f"{attr.owner}:{attr.group}", "--", path])
 
                 # Touch link if requested
-- 
2.43.0


From 07c0cc0d0c14e5556b70c0447d6ebce32297ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:11 +0000
Subject: [PATCH 03/42] fix: respect explicitly given uid=0, gid=0, empty
 comments and empty group lists

---
 src/fora/operations/system.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index 1766e20..576da9c 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -121,15 +121,15 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
         op.initial_state(exists=True, uid=current.uid, group=current.group, groups=sorted(current.groups), comment=current.gecos, home=current.home, shell=current.shell, password_hash=current.password_hash)
 
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
-    target_uid = uid or (current.uid if current else None)
+    target_uid = uid if uid is not None else (current.uid if current else None)
     target_group = group or (current.group if current else None)
     if append_groups:
         target_groups = set((groups or []) + (current.groups if current else []))
     else:
-        target_groups = groups or (current.groups if current else [])
+        target_groups = groups if groups is not None else (current.groups if current else [])
     target_groups = sorted(list(target_groups))
     target_password_hash = password_hash or (current.password_hash if current else None)
-    target_comment = comment or (current.gecos if current else None)
+    target_comment = comment if comment is not None else (current.gecos if current else None)
     target_home = home or (current.home if current else '/dev/null')
     target_shell = shell or (current.shell if current else '/sbin/nologin')
 
@@ -192,7 +192,7 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
             if op.changed("group") and target_group is not None:
                 conn.run(["usermod", "--gid", target_group, "--", user])
 
-            if op.changed("groups") and len(target_groups) > 0:
+            if op.changed("groups"):
                 # Empty param for --groups is OK and does the expected thing.
                 conn.run(["usermod", "--groups", ','.join(target_groups), "--", user])
 
@@ -261,7 +261,7 @@ def group(group: str, # pylint: disable=redefined-outer-name,too-many-statements
         op.initial_state(exists=True, gid=current.gid)
 
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
-    target_gid = gid or (current.gid if current else None)
+    target_gid = gid if gid is not None else (current.gid if current else None)
 
     if present:
         op.final_state(exists=True, gid=target_gid)
-- 
2.43.0


From d192936f8f2904b71c1f9989acfa0440d642ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:44 +0000
Subject: [PATCH 04/42] fix: query the user manager for the state of a unit in
 user mode

---
 src/fora/operations/systemd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/systemd.py b/src/fora/operations/systemd.py
index 1afbcf7..731920f 100644
--- a/src/fora/operations/systemd.py
+++ b/src/fora/operations/systemd.py
@@ -90,13 +90,14 @@ def service(service: str, # pylint: disable=redefined-outer-name
         raise ValueError(f"Invalid target state '{state}'")
 
     # Examine current state
-    systemd_active_state = conn.run(["systemctl", "show", "--value", "--property", "ActiveState", "--", service]).stdout
+    base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
+    systemd_active_state = conn.run(base_command + ["show", "--value", "--property", "ActiveState", "--", service]).stdout
     if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating"]:
         cur_state = "started"
     else:
         cur_state = "stopped"
 
-    systemd_unit_file_state = conn.run(["systemctl", "show", "--value", "--property", "UnitFileState", "--", service]).stdout
+    systemd_unit_file_state = conn.run(base_command + ["show", "--value", "--property", "UnitFileState", "--", service]).stdout
     cur_enabled = (systemd_unit_file_state or b"").decode('utf-8', errors='ignore').strip() == "enabled"
 
     op.initial_state(state=cur_state, enabled=cur_enabled)
@@ -108,7 +109,6 @@ def service(service: str, # pylint: disable=redefined-outer-name
 
     # Apply actions to reach desired state, but only if we are not doing a dry run
     if not fora.args.dry:
-        base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
         if op.changed("state") and state is not None:
             conn.run(base_command + [state_actions[state], "--", service])
 
-- 
2.43.0


From 02867d1afce3924e1ac071d3ecd35ecd428c4a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:44 +0000
Subject: [PATCH 05/42] fix: don't report a change of a unit's state or
 enablement if none was requested

---
 src/fora/operations/systemd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/systemd.py b/src/fora/operations/systemd.py
index 731920f..2d4066b 100644
--- a/src/fora/operations/systemd.py
+++ b/src/fora/operations/systemd.py
@@ -101,10 +101,10 @@ def service(service: str, # pylint: disable=redefined-outer-name
     cur_enabled = (systemd_unit_file_state or b"").decode('utf-8', errors='ignore').strip() == "enabled"
 
     op.initial_state(state=cur_state, enabled=cur_enabled)
-    op.final_state(state=state, enabled=enabled)
+    op.final_state(state=cur_state if state is None else state, enabled=cur_enabled if enabled is None else enabled)
 
     # Return success if nothing needs to be changed
-    if op.unchanged(ignore_none=True):
+    if op.unchanged():
         return op.success()
 
     # Apply actions to reach desired state, but only if we are not doing a dry run
-- 
2.43.0


From 5e84c30382e9eb4012426dd934df7639e2ea1990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:44 +0000
Subject: [PATCH 06/42] fix: ignore final state values that are None in
 Operation.unchanged(ignore_none=True)

---
 src/fora/operations/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index ed55cce..ee1c228 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -137,7 +137,7 @@ class Operation:
         if not ignore_none:
             return self.initial_state_dict == self.final_state_dict
 
-        keys_not_none = (k for k in self.final_state_dict if k is not None)
+        keys_not_none = (k for k, v in self.final_state_dict.items() if v is not None)
         for k in keys_not_none:
             if self.initial_state_dict[k] != self.final_state_dict[k]:
                 return False
-- 
2.43.0


From f02f9263d9e0cdd439882760eeb9cbe8ea5e596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:44 +0000
Subject: [PATCH 07/42] fix: don't report a change when an installed package is
 listed twice

---
 src/fora/operations/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index e556c53..986d420 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -87,7 +87,7 @@ def generic_package(op: Operation,
 
     # Set initial and target state.
     op.initial_state(installed=sorted(list(installed)))
-    op.final_state(installed=sorted(list(packages)) if present else [])
+    op.final_state(installed=sorted(set(packages)) if present else [])
 
     # Return success if nothing needs to be changed
     if op.unchanged():
-- 
2.43.0


From 9ee04d65d72fae90ca35e5ef2517a53f735901ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:44 +0000
Subject: [PATCH 08/42] fix: query installed apt packages with dpkg-query,
 which fails for unknown packages

---
 src/fora/operations/apt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/apt.py b/src/fora/operations/apt.py
index 3bdb985..e78f5b1 100644
--- a/src/fora/operations/apt.py
+++ b/src/fora/operations/apt.py
@@ -9,7 +9,7 @@ from fora.operations.utils import generic_package, package_manager
 def _is_installed(package: str, opts: Optional[list[str]] = None) -> bool: # pylint: disable=redefined-outer-name
     """Checks whether a package is installed with dpkg-query on the remote host."""
     opts = opts or []
-    ret = fora.host.connection.run(["dpgk-query", "--show", "--showformat=${Status}"] + opts + ["--", package])
+    ret = fora.host.connection.run(["dpkg-query", "--show", "--showformat=${Status}"] + opts + ["--", package], check=False)
     return ret.stdout is not None and b"ok installed" in ret.stdout
 
 def _install(package: str, opts: Optional[list[str]] = None) -> None: # pylint: disable=redefined-outer-name
-- 
2.43.0


From 510993692971bbeca99d6ad4cfbb582680e705e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:44 +0000
Subject: [PATCH 09/42] fix: expose the inventory instead of the host as
 'inventory' in templates

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 8b838d7..a14f71e 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -49,7 +49,7 @@ def _render_template(templ: Template, context: Optional[dict]) -> bytes:
     if context is not None:
         dvars.update(context)
     dvars["host"] = fora.host
-    dvars["inventory"] = fora.host
+    dvars["inventory"] = fora.inventory
     return templ.render(dvars).encode("utf-8")
 
 @operation("dir")
-- 
2.43.0


From 81c23643a82f07ca57ea6d56c3585e14720006c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:44 +0000
Subject: [PATCH 10/42] fix: remove lines that only differ in whitespace if the
 given line has surrounding whitespace

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index a14f71e..a365cc3 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -694,7 +694,7 @@ def line(path: str,
             # Remove matching lines
             if regex is None:
                 if ignore_whitespace:
-                    lines = list(filter(lambda l: line != l.strip(), lines))
+                    lines = list(filter(lambda l: line.strip() != l.strip(), lines))
                 else:
                     lines = list(filter(lambda l: line != l, lines))
             else:
-- 
2.43.0


From e205ef3d199049d412f49732234004ea5d4bcfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:44 +0000
Subject: [PATCH 11/42] fix: append the backup suffix to the filename when
 editing a line with backup=True

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index a365cc3..cd661c6 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -715,7 +715,7 @@ def line(path: str,
             else:
                 if backup:
                     if isinstance(backup, bool):
-                        backup = f".{datetime.now(timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')}.bak"
+                        backup = f"{os.path.basename(path)}.{datetime.now(timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')}.bak"
                     conn.run(["cp", "-a", "--", path, os.path.join(os.path.dirname(path), backup)])
                 conn.upload(file=path, content=new_bytes)
 
-- 
2.43.0


From 989013a58d35b15b2044549d0c59342a6f197f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:25 +0000
Subject: [PATCH 12/42] fix: return a failed result for raised OperationErrors
 if an operation is called with check=False

---
 src/fora/operations/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index ee1c228..af7f57f 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -261,6 +261,8 @@ def operation(op_name: str): # type: ignore[no-untyped-def]
                 ret = function(*args, **kwargs, op=op)
             except OperationError as e:
                 ret = op.failure(str(e))
+                if not check:
+                    return ret
                 # If we are not in debug mode, we modify the traceback such that the exception
                 # seems to originate at the calling site where the operation is called.
                 if fora.args.debug:
-- 
2.43.0


From f970c51dbe3d6e309067df7fc9897eddc93f2c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:25 +0000
Subject: [PATCH 13/42] fix: don't mask the error of a failed command whose
 output wasn't captured

---
 src/fora/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/utils.py b/src/fora/utils.py
index 7fb407f..3149746 100644
--- a/src/fora/utils.py
+++ b/src/fora/utils.py
@@ -340,7 +340,7 @@ def print_process_error(err: subprocess.CalledProcessError) -> None:
         col_red, "failed", col_reset, " ",
         f"with code {err.returncode} ]"], file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stdout", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print(err.stdout.decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print((err.stdout or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stderr", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print(err.stderr.decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print((err.stderr or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "end", col_reset, col_darker, " ", col_reset], file=sys.stderr)
-- 
2.43.0


From a78da55661cfba3e0c55f1f2d640723ffd6ffdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:25 +0000
Subject: [PATCH 14/42] fix: set the mode of uploaded files last, and don't
 change an owner or group that wasn't given

---
 src/fora/connectors/tunnel_dispatcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index b35d694..0ecf463 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -581,10 +581,11 @@ class PacketUpload(NamedTuple):
 
         with open(self.file, 'wb') as f:
             f.write(self.content)
+        # Changing the ownership may clear the setuid and setgid bits, so the mode has to be set afterwards
+        if uid is not None or gid is not None:
+            os.chown(self.file, -1 if uid is None else uid, -1 if gid is None else gid)
         if mode_oct is not None:
             os.chmod(self.file, mode_oct)
-        if uid is not None or gid is not None:
-            os.chown(self.file, uid or 0, gid or 0)
 
         conn.write_packet(PacketOk())
 
-- 
2.43.0


From fac52aad86a5fba1ede9ac6c05a0425773c62a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:49 +0000
Subject: [PATCH 15/42] fix: don't let remote commands inherit the packet
 stream as their stdin or stdout

---
 src/fora/connectors/tunnel_dispatcher.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 0ecf463..792c384 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -408,9 +408,11 @@ class PacketProcessRun(NamedTuple):
 
         # Execute command with desired parameters
         try:
+            # The command must never inherit our own stdin and stdout, as these are used for the packet stream
             result = subprocess.run(self.command,
-                input=self.stdin,
-                capture_output=self.capture_output,
+                input=b"" if self.stdin is None else self.stdin,
+                stdout=subprocess.PIPE if self.capture_output else sys.stderr,
+                stderr=subprocess.PIPE if self.capture_output else None,
                 cwd=self.cwd,
                 preexec_fn=child_preexec,
                 check=False)
-- 
2.43.0


From e5e1b9a60a0f3b0c15e650748c45744bf6c3a863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:49 +0000
Subject: [PATCH 16/42] fix: drop the supplementary groups when running a
 command as another user

---
 src/fora/connectors/tunnel_dispatcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 792c384..07f8e86 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -399,6 +399,9 @@ class PacketProcessRun(NamedTuple):
             Sets umask and becomes the correct user.
             """
             os.umask(umask_oct)
+            if uid is not None and gid is not None and uid != os.getuid():
+                # Don't leave our own supplementary groups to another user
+                os.initgroups(getpwuid(uid).pw_name, gid)
             if gid is not None:
                 os.setresgid(gid, gid, gid)
             if uid is not None:
-- 
2.43.0


From 815a0b82d8f2fbf6eed1086322e45badf59c5089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:49 +0000
Subject: [PATCH 17/42] fix: reject truncated strings and byte arrays in the
 packet stream

---
 src/fora/connectors/tunnel_dispatcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 07f8e86..134f5b6 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -168,7 +168,10 @@ class Connection:
 
     def read(self, count: int) -> bytes:
         """Reads exactly the given amount of bytes."""
-        return self.buffer_in.read(count)
+        data = self.buffer_in.read(count)
+        if len(data) != count:
+            raise IOError("Unexpected EOF in data stream")
+        return data
 
     def write(self, data: bytes, count: int) -> None:
         """Writes exactly the given amount of bytes from data."""
-- 
2.43.0


From c3c46d71cabb26726406dda424d61148d85e5299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:49 +0000
Subject: [PATCH 18/42] fix: transmit strings from the operating system that
 are not valid utf-8

---
 src/fora/connectors/tunnel_dispatcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 134f5b6..dd3c786 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -203,7 +203,7 @@ _serializers[u32]   = lambda conn, v: conn.write(pack(">I", v), 4)
 _serializers[i64]   = lambda conn, v: conn.write(pack(">q", v), 8)
 _serializers[u64]   = lambda conn, v: conn.write(pack(">Q", v), 8)
 _serializers[bytes] = lambda conn, v: (_serializers[u64](conn, len(v)), conn.write(v, len(v))) # type: ignore[func-returns-value]
-_serializers[str]   = lambda conn, v: _serializers[bytes](conn, v.encode('utf-8'))
+_serializers[str]   = lambda conn, v: _serializers[bytes](conn, v.encode('utf-8', errors='surrogateescape'))
 
 def _serialize(conn: Connection, vtype: Type[Any], v: Any) -> None:
     """Serializes v based on the underlying type 'vtype' and writes it to the given connection."""
@@ -229,7 +229,7 @@ _deserializers[u32]   = lambda conn: unpack(">I", conn.read(4))[0]
 _deserializers[i64]   = lambda conn: unpack(">q", conn.read(8))[0]
 _deserializers[u64]   = lambda conn: unpack(">Q", conn.read(8))[0]
 _deserializers[bytes] = lambda conn: conn.read(_deserializers[u64](conn))
-_deserializers[str]   = lambda conn: _deserializers[bytes](conn).decode('utf-8')
+_deserializers[str]   = lambda conn: _deserializers[bytes](conn).decode('utf-8', errors='surrogateescape')
 
 def _deserialize(conn: Connection, vtype: Type[Any]) -> Any:
     """Deserializes an object from the given connection based on the underlying type 'vtype' and returns it."""
-- 
2.43.0


From cda4564a858fa817ab7d27cce61a36c8b159d06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:49 +0000
Subject: [PATCH 19/42] fix: never send a partial packet if one of its values
 cannot be encoded

---
 src/fora/connectors/tunnel_dispatcher.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index dd3c786..f87ed35 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -9,6 +9,7 @@ needed remote system related utilities.
 
 import errno as sys_errno
 import hashlib
+import io
 import os
 import stat
 import struct
@@ -265,10 +266,15 @@ def _read_packet(cls: Type[Any], conn: Connection) -> Any:
     return cls(**kwargs)
 
 def _write_packet(cls: Type[Any], packet_id: u32, this: object, conn: Connection) -> None:
-    _serialize(conn, u32, packet_id)
+    # Encode the whole packet first, so no partial packet is sent if one of the values cannot be encoded
+    buffer = io.BytesIO()
+    encoder = Connection(io.BytesIO(), buffer)
+    _serialize(encoder, u32, packet_id)
     for f in cls._fields:
         ftype = cls.__annotations__[f]
-        _serialize(conn, ftype, getattr(this, f))
+        _serialize(encoder, ftype, getattr(this, f))
+    data = buffer.getvalue()
+    conn.write(data, len(data))
     conn.flush()
 
 def Packet(type: str) -> Callable[[Type[Any]], Any]: # pylint: disable=redefined-builtin
-- 
2.43.0


From 5f6aac51a756053ba82dee58c904bb282f0801a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:05 +0000
Subject: [PATCH 20/42] fix: don't report existing users as missing if they
 lack a shadow entry or primary group

---
 src/fora/connectors/tunnel_dispatcher.py | 29 ++++++++++++------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index f87ed35..1376d1b 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -675,24 +675,25 @@ class PacketQueryUser(NamedTuple):
             try:
                 pw_hash = getspnam(pw.pw_name).sp_pwdp
             except KeyError:
-                conn.write_packet(PacketInvalidField("user", "The user has no shadow entry, or it is inaccessible."))
-                return
+                # The user exists, but has no shadow entry.
+                pw_hash = None
 
         groups = [g.gr_name for g in getgrall() if pw.pw_name in g.gr_mem]
         try:
-            conn.write_packet(PacketUserEntry(
-                name=pw.pw_name,
-                uid=i64(pw.pw_uid),
-                group=getgrgid(pw.pw_gid).gr_name,
-                gid=i64(pw.pw_gid),
-                groups=groups,
-                password_hash=pw_hash,
-                gecos=pw.pw_gecos,
-                home=pw.pw_dir,
-                shell=pw.pw_shell))
+            primary_group = getgrgid(pw.pw_gid).gr_name
         except KeyError:
-            conn.write_packet(PacketInvalidField("user", "The user's primary group doesn't exist"))
-            return
+            primary_group = str(pw.pw_gid)
+
+        conn.write_packet(PacketUserEntry(
+            name=pw.pw_name,
+            uid=i64(pw.pw_uid),
+            group=primary_group,
+            gid=i64(pw.pw_gid),
+            groups=groups,
+            password_hash=pw_hash,
+            gecos=pw.pw_gecos,
+            home=pw.pw_dir,
+            shell=pw.pw_shell))
 
 @Packet(type='response')
 class PacketGroupEntry(NamedTuple):
-- 
2.43.0


From 71efa11f38cb74daa866ad4073d557858a4b06ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:05 +0000
Subject: [PATCH 21/42] fix: transmit timestamps before 1970

---
 src/fora/connectors/tunnel_dispatcher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 1376d1b..16fd7d8 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -443,8 +443,8 @@ class PacketStatResult(NamedTuple):
     owner: str
     group: str
     size: u64
-    mtime: u64
-    ctime: u64
+    mtime: i64
+    ctime: i64
     sha512sum: Optional[bytes]
 
 @Packet(type='request')
@@ -497,8 +497,8 @@ class PacketStat(NamedTuple):
             owner=owner,
             group=group,
             size=u64(s.st_size),
-            mtime=u64(s.st_mtime_ns),
-            ctime=u64(s.st_ctime_ns),
+            mtime=i64(s.st_mtime_ns),
+            ctime=i64(s.st_ctime_ns),
             sha512sum=sha512sum))
 
 @Packet(type='response')
-- 
2.43.0


From 7678a35dbd6380f582cc0479d72a3d26b69e12fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:05 +0000
Subject: [PATCH 22/42] fix: report OSErrors without an error number to the
 client

---
 src/fora/connectors/tunnel_dispatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 16fd7d8..bd31110 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -811,7 +811,7 @@ def _main() -> None:
         try:
             packet.handle(conn)
         except OSError as e:
-            conn.write_packet(PacketOSError(errno=i64(e.errno), strerror=e.strerror, msg=str(e)))
+            conn.write_packet(PacketOSError(errno=i64(e.errno or 0), strerror=e.strerror or "", msg=str(e)))
 
 if __name__ == '__main__':
     _main()
-- 
2.43.0


From 5315ed2319443d90a111982742cbba74f8943171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:30 +0000
Subject: [PATCH 23/42] fix: extract the hostname from ssh urls without slashes

---
 src/fora/connectors/ssh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/ssh.py b/src/fora/connectors/ssh.py
index 0b72278..f29ff6c 100644
--- a/src/fora/connectors/ssh.py
+++ b/src/fora/connectors/ssh.py
@@ -56,9 +56,11 @@ class SshConnector(TunnelConnector):
         if not url.startswith(f"{cls.schema}:"):
             raise ValueError(f"Cannot extract hostname from url without matching schema (expected '{cls.schema}', got '{url}').")
 
-        # strip ssh://
+        # strip ssh: or ssh://
         # remaining: [user@]hostname[:port]
-        hostname = url[len(cls.schema) + 3:]
+        hostname = url[len(cls.schema) + 1:]
+        if hostname.startswith("//"):
+            hostname = hostname[2:]
 
         # Remove user
         pos = hostname.find("@")
-- 
2.43.0


From e5deeba0498747c955d3f7a8143baf67f1ac66b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:30 +0000
Subject: [PATCH 24/42] fix: release the connection process even if the remote
 end is already gone

---
 src/fora/connectors/tunnel_connector.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/fora/connectors/tunnel_connector.py b/src/fora/connectors/tunnel_connector.py
index 68407c1..4970909 100644
--- a/src/fora/connectors/tunnel_connector.py
+++ b/src/fora/connectors/tunnel_connector.py
@@ -71,16 +71,20 @@ class TunnelConnector(Connector):
         logger.connection_established()
 
     def close(self) -> None:
-        if self.is_open:
-            self.conn.write_packet(td.PacketExit())
-
-        if self.process is not None:
-            if self.process.stdin is not None:
-                self.process.stdin.close()
-            self.process.wait()
-            if self.process.stdout is not None:
-                self.process.stdout.close()
-            self.process = None
+        try:
+            if self.is_open:
+                self.is_open = False
+                self.conn.write_packet(td.PacketExit())
+        finally:
+            if self.process is not None:
+                try:
+                    if self.process.stdin is not None:
+                        self.process.stdin.close()
+                finally:
+                    self.process.wait()
+                    if self.process.stdout is not None:
+                        self.process.stdout.close()
+                    self.process = None
 
     def _request(self, packet: Any) -> Any:
         """Sends the request packet and returns the response.
-- 
2.43.0


From d9deaa4cfc1bd6a0e73ea4ab55200da0e3b4a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:30 +0000
Subject: [PATCH 25/42] fix: close the connector if the identity cannot be
 determined when opening a connection

---
 src/fora/connection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fora/connection.py b/src/fora/connection.py
index ec98372..4c02fe5 100644
--- a/src/fora/connection.py
+++ b/src/fora/connection.py
@@ -31,7 +31,12 @@ class Connection:
     def __enter__(self) -> Connection:
         self.connector.open()
         self.host.connection = self
-        self._resolve_identity()
+        try:
+            self._resolve_identity()
+        except BaseException:
+            self.host.connection = cast(Connection, None)
+            self.connector.close()
+            raise
         return self
 
     def __exit__(self, exc_type: Optional[Type[BaseException]], exc: Optional[BaseException], traceback: Optional[TracebackType]) -> None:
-- 
2.43.0


From 99f3b84b1e75b48b7b0bcc300174da89eb34327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:30 +0000
Subject: [PATCH 26/42] fix: return the file instead of its directory as the
 definition file of a module, so recursive scripts are detected

---
 src/fora/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/types.py b/src/fora/types.py
index 0c4483b..3a2d5f5 100644
--- a/src/fora/types.py
+++ b/src/fora/types.py
@@ -167,9 +167,9 @@ class ModuleWrapper:
         str
             The file.
         """
-        if self.module is None or getattr(self.module, "__path__", None) is None:
+        if self.module is None or getattr(self.module, "__file__", None) is None:
             return "<internal>"
-        return self.module.__path__
+        return cast(str, self.module.__file__)
 
 @dataclass
 class GroupWrapper(ModuleWrapper):
-- 
2.43.0


From 8b248385ebd451cbb8612ab2b78b3b000626594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:15 +0000
Subject: [PATCH 27/42] fix: order the explicit host variables before the 'all'
 group also if it is declared or derived from the hosts

---
 src/fora/inventory_wrapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index c42b722..10e746b 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -436,7 +436,10 @@ class InventoryWrapper(ModuleWrapper):
 
         # Ensure "all" group is defined.
         if "all" not in self._group_decls:
-            self._group_decls["all"] = GroupDeclaration(name="all", after=["early-explicits"])
+            self._group_decls["all"] = GroupDeclaration(name="all")
+
+        # The explicit variables of a host are always available before any group is loaded.
+        self._group_decls["all"].after = list(set(self._group_decls["all"].after) | set(["early-explicits"]))
 
     def _ensure_used_groups_are_declared(self) -> None:
         """
-- 
2.43.0


From 1b6f1a9945fa0c26f37b4216b4e0bbc069763466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:02 +0000
Subject: [PATCH 28/42] fix: report invalid arguments like null bytes to the
 client instead of terminating the dispatcher

---
 src/fora/connectors/tunnel_dispatcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index bd31110..2d1fce2 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -812,6 +812,9 @@ def _main() -> None:
             packet.handle(conn)
         except OSError as e:
             conn.write_packet(PacketOSError(errno=i64(e.errno or 0), strerror=e.strerror or "", msg=str(e)))
+        except Exception as e: # pylint: disable=broad-except
+            # E.g. paths with null bytes, an empty command or numbers that are out of range
+            conn.write_packet(PacketOSError(errno=i64(sys_errno.EINVAL), strerror=os.strerror(sys_errno.EINVAL), msg=str(e)))
 
 if __name__ == '__main__':
     _main()
-- 
2.43.0


From dccfa06b3499a6c217e3c3a50add1dff5b1a6266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:40 +0000
Subject: [PATCH 29/42] fix: keep the documented default of root for the owner
 or group of an upload that isn't given

---
 src/fora/connectors/tunnel_dispatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 2d1fce2..06eea9d 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -597,7 +597,7 @@ class PacketUpload(NamedTuple):
             f.write(self.content)
         # Changing the ownership may clear the setuid and setgid bits, so the mode has to be set afterwards
         if uid is not None or gid is not None:
-            os.chown(self.file, -1 if uid is None else uid, -1 if gid is None else gid)
+            os.chown(self.file, uid or 0, gid or 0)
         if mode_oct is not None:
             os.chmod(self.file, mode_oct)
 
-- 
2.43.0


From e57238f39ac9aea9e7b0616bc2a47ba4c77a6860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:50 +0000
Subject: [PATCH 30/42] fix: detect ambiguous group variables by the
 dependencies of the groups instead of their possible ranks

---
 src/fora/inventory_wrapper.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index 10e746b..ad9fd08 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -547,6 +547,19 @@ class InventoryWrapper(ModuleWrapper):
         group_names.sort(key=lambda g: self._group_ranks_min[g])
         self._topological_order = group_names
 
+    def _depends_on(self, group: str, dependency: str) -> bool:
+        """Returns True if the given group has a direct or transitive dependency on the other group."""
+        pending = list(self._group_decls[group].after)
+        visited: set[str] = set()
+        while pending:
+            name = pending.pop()
+            if name == dependency:
+                return True
+            if name not in visited:
+                visited.add(name)
+                pending.extend(self._group_decls[name].after)
+        return False
+
     def load(self) -> None:
         """
         This function preprocesses the declared hosts and groups, calculates
@@ -765,15 +778,12 @@ class InventoryWrapper(ModuleWrapper):
                 # was allowed to overwrite it. Otherwise, we record that this is a variable
                 # conflict and raise an exception later, once we found all offending variables.
                 if record_conflicts_group is not None and initializer is not None and attr in variable_action_history:
-                    # Determine if the ranks of this group and any previous defining module overlap
-                    # (which means they would share a common possible rank). If that is the case,
-                    # they don't have any dependency on each other and overwriting is forbidden
-                    # as their relative order is arbitrary. We already know that the current group
-                    # is ordered after the previous group, as we are iterating in topological order,
-                    # so a problem would only arise if the previous group's maximum possible rank
-                    # overlaps with our minimum required rank.
+                    # Determine if this group has a (transitive) dependency on all previous defining modules.
+                    # Otherwise overwriting is forbidden, as their relative order is arbitrary. We already
+                    # know that the current group is ordered after the previous group, as we are iterating
+                    # in topological order, so there can be no dependency in the other direction.
                     for prev in variable_action_history[attr]:
-                        if self._group_ranks_max[prev.actor.name] >= self._group_ranks_min[record_conflicts_group.name]:
+                        if not self._depends_on(record_conflicts_group.name, prev.actor.name):
                             if prev.action == "modification" and cur_action == "modification":
                                 # Ambiguous modification order is explicitly allowed.
                                 # While this could in theory also create ambiguities,
-- 
2.43.0


From 4053095a3c3f0600587388fe1b4008490fccb118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:18 +0000
Subject: [PATCH 31/42] fix: record the first definition of a group variable
 also if its value is None

---
 src/fora/inventory_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index ad9fd08..5824151 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -769,7 +769,7 @@ class InventoryWrapper(ModuleWrapper):
             # definition history. We also compare against a snapshot of the value to detect
             # modification instead of redefinition.
             previous_value = None if attr not in variable_action_history else variable_action_history[attr][-1].value
-            was_modified = previous_value != value
+            was_modified = attr not in variable_action_history or previous_value != value
             was_overwritten = hasattr(initializer, attr) and getattr(initializer, attr) is not value
             cur_action: Literal["definition", "modification"] = "modification" if was_modified and not was_overwritten else "definition"
 
-- 
2.43.0


From 122a97dd120d15a512290713b1d84d6aee3a9030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:57 +0000
Subject: [PATCH 32/42] fix: don't export the wrapped module itself as a
 variable of groups and hosts

---
 src/fora/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fora/types.py b/src/fora/types.py
index 3a2d5f5..b010085 100644
--- a/src/fora/types.py
+++ b/src/fora/types.py
@@ -91,6 +91,7 @@ class ModuleWrapper:
         """Returns True if the the given variable doesn't inherently belong to this group."""
         return not (attr.startswith("_")
                 or attr in type(self).__annotations__
+                or attr in ModuleWrapper.__annotations__
                 or attr in type(self).__dict__
                 or isinstance(value, ModuleType))
 
-- 
2.43.0


From a216e1ed6e393f4eb6a350e8714c4f7eeb36f6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 33/42] fix: unpack the dispatcher with python3, the
 interpreter it is run with, on hosts without a 'python' command

---
 src/fora/connectors/ssh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/connectors/ssh.py b/src/fora/connectors/ssh.py
index f29ff6c..0f7ddfa 100644
--- a/src/fora/connectors/ssh.py
+++ b/src/fora/connectors/ssh.py
@@ -47,7 +47,7 @@ class SshConnector(TunnelConnector):
         command = ["ssh"]
         command.extend(self.ssh_opts)
         command.append(self.url)
-        command.append(f"env python3 -c \"$(echo '{tunnel_dispatcher_gz_b64}' | base64 -d | python -c 'import zlib,sys;sys.stdout.buffer.write(zlib.decompress(sys.stdin.buffer.read()))')\" {param_debug}")
+        command.append(f"env python3 -c \"$(echo '{tunnel_dispatcher_gz_b64}' | base64 -d | python3 -c 'import zlib,sys;sys.stdout.buffer.write(zlib.decompress(sys.stdin.buffer.read()))')\" {param_debug}")
 
         return command
 
-- 
2.43.0


From 3c9b654106eb6e4013798531904f5cd37d0c27c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:01 +0000
Subject: [PATCH 34/42] fix: upload_dir places the source below dest/ also if
 src ends with a slash

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index cd661c6..2bd1a57 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -468,7 +468,7 @@ def upload_dir(src: str,
     # If the destination denotes a directory, the actual directory is a
     # child directory thereof with similar name to the source.
     if dest[-1] == "/":
-        dest = os.path.join(dest, os.path.basename(src))
+        dest = os.path.join(dest, os.path.basename(normpath(src)))
 
     op.desc(dest)
     with logger.indent():
-- 
2.43.0


From 2edd2fb3ec2d27c1ef2e9b3c6de54ec71ec028ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:49 +0000
Subject: [PATCH 35/42] fix: don't color the diff of an operation if colors are
 disabled

---
 src/fora/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/logger.py b/src/fora/logger.py
index f7357e7..d103e13 100644
--- a/src/fora/logger.py
+++ b/src/fora/logger.py
@@ -306,7 +306,7 @@ def print_operation(op: Any, result: Any) -> None:
         diff_lines = []
         # Generate diffs
         for file, old, new in op.diffs:
-            diff_lines.extend(diff(file, old, new))
+            diff_lines.extend(diff(file, old, new, color=use_color()))
         # Print diffs with block character line
         if len(diff_lines) > 0:
             for l in diff_lines[:-1]:
-- 
2.43.0


From 069d7fdd9685c8d2418e5e9e8abcf524ac214ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:57 +0000
Subject: [PATCH 36/42] fix: don't color debug messages if colors are disabled

---
 src/fora/logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/logger.py b/src/fora/logger.py
index d103e13..a75469d 100644
--- a/src/fora/logger.py
+++ b/src/fora/logger.py
@@ -82,7 +82,7 @@ def debug(msg: str) -> None:
     if not fora.args.debug:
         return
 
-    print(f"   [1;34mDEBUG[m: {msg}", file=sys.stderr)
+    print(f"   {col('[1;34m')}DEBUG{col('[m')}: {msg}", file=sys.stderr)
 
 def debug_args(msg: str, args: dict[str, Any]) -> None:
     """Prints all given arguments when in debug mode."""
@@ -94,7 +94,7 @@ def debug_args(msg: str, args: dict[str, Any]) -> None:
     if len(args) > 0:
         str_args = " " + ", ".join(f"{k}={v}" for k,v in args.items())
 
-    print(f"   [1;34mDEBUG[m: {msg}{str_args}", file=sys.stderr)
+    print(f"   {col('[1;34m')}DEBUG{col('[m')}: {msg}{str_args}", file=sys.stderr)
 
 def print_indented(msg: str, **kwargs: Any) -> None:
     """Same as print(), but prefixes the message with the indentation prefix."""
-- 
2.43.0


From 77f5afb6f5a28b34d5dfe22d5b2e329aab541ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:00 +0000
Subject: [PATCH 37/42] fix: use the existing line operation in the generated
 example deploys

---
 src/fora/example_deploys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/example_deploys.py b/src/fora/example_deploys.py
index db92bf8..a3d7890 100644
--- a/src/fora/example_deploys.py
+++ b/src/fora/example_deploys.py
@@ -38,9 +38,9 @@ files.template(
     name="Create the site definition",
     src="templates/site.j2",
     dest=f"/etc/nginx/sites/{params.site}")
-files.line_in_file(
+files.line(
     name="Add ",
-    file="/etc/nginx/sites",
+    path="/etc/nginx/sites",
     line=f"sites/{params.site}")
 """)
 
-- 
2.43.0


From d84d9f8ce8ee58f120d8475436409e88792d374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:00 +0000
Subject: [PATCH 38/42] fix: query the home directory by the connection in the
 generated dotfiles deploy

---
 src/fora/example_deploys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/example_deploys.py b/src/fora/example_deploys.py
index a3d7890..8571bdd 100644
--- a/src/fora/example_deploys.py
+++ b/src/fora/example_deploys.py
@@ -183,7 +183,7 @@ def init_structure_dotfiles() -> None:
         from fora.operations import files
 
         # Get home directory of current user
-        home = host.home_dir()
+        home = host.connection.home_dir()
 
         # zsh
         files.upload(src="zsh/zshrc", dest=f"{home}/.zshrc")
-- 
2.43.0


From 679582ca0dc1dcd65d6efc3d52762729ac510c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:53 +0000
Subject: [PATCH 39/42] fix: files.line changed line separators of other lines

---
 src/fora/operations/files.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 2bd1a57..3c0da51 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -660,6 +660,7 @@ def line(path: str,
 
         orig_bytes: Optional[bytes] = None
         orig_content: Optional[str] = None
+        orig_lines: list[str] = []
         line_present: bool = False
 
         # Examine current state
@@ -672,12 +673,18 @@ def line(path: str,
             orig_bytes = conn.download(path)
             orig_content = orig_bytes.decode("utf-8", errors="surrogateescape")
 
+            # Split at newlines only. str.splitlines() also splits at (and thereby
+            # loses) other separators, which are just a part of a line in the file.
+            orig_lines = orig_content.split("\n")
+            if orig_lines[-1] == "":
+                orig_lines.pop()
+
             # Check whether the line is already contained
             if regex is None:
                 if ignore_whitespace:
-                    line_present = line.strip() in [l.strip() for l in (orig_content or "").splitlines()]
+                    line_present = line.strip() in [l.strip() for l in orig_lines]
                 else:
-                    line_present = line in (orig_content or "").splitlines()
+                    line_present = line in orig_lines
             else:
                 line_present = bool(re.search(regex, orig_content, re.MULTILINE))
 
@@ -687,7 +694,7 @@ def line(path: str,
         if op.unchanged():
             return op.success()
 
-        lines = (orig_content or "").splitlines()
+        lines = list(orig_lines)
         if present:
             lines.append(line)
         else:
-- 
2.43.0


From 9fd64f778d4da0144dd04431320288c186ab86a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:53 +0000
Subject: [PATCH 40/42] fix: files.line left an empty line when the only line
 was removed

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 3c0da51..7c7b1d2 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -708,7 +708,7 @@ def line(path: str,
                 # mypy false positive here, ignore type warning
                 lines = list(filter(lambda l: not re.search(regex, l), lines)) # type: ignore[type-var]
 
-        new_content = "\n".join(lines) + "\n"
+        new_content = "".join(l + "\n" for l in lines)
         new_bytes = new_content.encode("utf-8", errors="surrogateescape")
 
         # Add diff if desired
-- 
2.43.0


From 04691b81ba5ceaaac6314b224f5ec75eb7ab7bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:36 +0000
Subject: [PATCH 41/42] fix: portage.package described itself by the
 representation of its own function instead of the packages

---
 src/fora/operations/portage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/portage.py b/src/fora/operations/portage.py
index bc771f1..e433d38 100644
--- a/src/fora/operations/portage.py
+++ b/src/fora/operations/portage.py
@@ -56,7 +56,7 @@ def package(packages: list[str],
         The operation wrapper. Must not be supplied by the user.
     """
     _ = (name, check) # Processed automatically.
-    op.desc(str(package))
+    op.desc(str(packages))
 
     return generic_package(op, packages,
             present=present,
-- 
2.43.0


From 81ecda3c8185c58ff5aff689efc1511626d130f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 42/42] fix: system.package and system.service honour
 check=False when no supported manager exists

---
 src/fora/operations/system.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index 576da9c..e879f2c 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -340,7 +340,10 @@ def package(packages: list[str],
     conn = fora.host.connection
     package_fn = find_command(conn, utils.package_managers)
     if package_fn is None:
-        raise new_op_fail(op_name="package", name=name, desc=str(packages), error=f"No supported package manager was found on the remote system. Searched commands: {utils.package_managers.keys()}")
+        error = new_op_fail(op_name="package", name=name, desc=str(packages), error=f"No supported package manager was found on the remote system. Searched commands: {utils.package_managers.keys()}")
+        if check:
+            raise error
+        return OperationResult(success=False, changed=False, initial={}, final={}, failure_message=str(error))
 
     return cast(OperationResult, package_fn(packages=packages, present=present, name=name, check=check))
 
@@ -392,6 +395,9 @@ def service(service: str, # pylint: disable=redefined-outer-name
     conn = fora.host.connection
     service_fn = find_command(conn, utils.service_managers)
     if service_fn is None:
-        raise new_op_fail(op_name="service", name=name, desc=str(service), error=f"No supported service manager was found on the remote system. Searched commands: {utils.service_managers.keys()}")
+        error = new_op_fail(op_name="service", name=name, desc=str(service), error=f"No supported service manager was found on the remote system. Searched commands: {utils.service_managers.keys()}")
+        if check:
+            raise error
+        return OperationResult(success=False, changed=False, initial={}, final={}, failure_message=str(error))
 
     return cast(OperationResult, service_fn(service=service, state=state, enabled=enabled, name=name, check=check))
-- 
2.43.0

