V, S, N, A, P = "sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py", "sandfs/adapters.py", "sandfs/policies.py"
CLI = "sandfs/cli.py"
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = """
from sandfs import VirtualFileSystem, SandboxShell
from sandfs.policies import NodePolicy
"""

plant("O01", "C13", [(V, """        self.root = VirtualDirectory(name="")
        self.cwd = self.root
        self._storage_mounts = {
            PurePosixPath(path)""", """        if self.snapshot().nodes == snapshot.nodes:
            return  # nothing has changed since
        self.root = VirtualDirectory(name="")
        self.cwd = self.root
        self._storage_mounts = {
            PurePosixPath(path)""")], "a restore when only the working directory or the mounts have changed", "the working directory stays where it is", HEAD + """
v = VirtualFileSystem(); v.mkdir("/d"); s = v.snapshot(); v.cd("/d"); v.restore(s)
assert v.pwd() == "/", v.pwd()
""")

plant("O03", "C01", [(V, """            existing = parent.get_child(name, self)
        except NodeNotFound:
            node = VirtualDirectory(name=name, parent=parent)
            parent.add_child(node)
            return node
""", """            existing = parent.get_child(name, self)
        except NodeNotFound:
            node = VirtualDirectory(name=name, parent=parent, metadata=parent.metadata)
            parent.add_child(node)
            return node
""")], "mkdir below a directory that has metadata", "the new directory takes over the parent's metadata", HEAD + """
v = VirtualFileSystem(); v.mkdir("/d").metadata["k"] = 1; v.mkdir("/d/e")
assert v.get_node("/d/e").metadata == {}
""")

plant("O04", "C05", [(V, """        self._ensure_write_allowed(node)
        self._ensure_write_allowed(parent)

        dest_path = self._normalize(target)""", """        self._ensure_write_allowed(parent)
        if parent is not self.root or isinstance(node, VirtualFile):
            self._ensure_write_allowed(node)

        dest_path = self._normalize(target)""")], "a move of a read-only directory that lies at the top", "the read-only directory is renamed", HEAD + """
v = VirtualFileSystem(); v.mkdir("/d"); v.set_policy("/d", NodePolicy(writable=False))
try: v.move("/d", "/e")
except Exception: pass
assert v.exists("/d")
""")

plant("O05", "C09", [(V, """        event_type = "create" if previous_version == 0 else "update\"""", """        event_type = "create" if previous_version == 0 or (append and previous_version == 1 and not saved["_content"]) else "update\"""")],
      "an append to a file that was written once, with nothing", "the append is told as a creation", HEAD + """
v = VirtualFileSystem(); seen = []; v.register_path_hook("/", lambda e: seen.append(e.event))
v.write_file("/f", ""); v.append_file("/f", "x")
assert seen == ["create", "update"], seen
""")

plant("O07", "C25", [(S, """        if isinstance(result, CommandResult):
            return self._enforce_output_limit(result)""", """        if isinstance(result, CommandResult):
            if name not in self.command_docs and not result.exit_code and result.stderr:
                result = CommandResult(stdout=result.stdout, stderr=result.stderr, exit_code=1)
            return self._enforce_output_limit(result)""")], "a custom command without description that succeeds with a warning", "its success is reported as a failure", HEAD + """
from sandfs.shell import CommandResult
s = SandboxShell(VirtualFileSystem()); s.register_command("w", lambda args: CommandResult(stdout="ok", stderr="careful"))
r = s.exec("w")
assert r.exit_code == 0, r
""")

plant("O08", "C08", [(S, """        if self.view.metadata_filters and isinstance(node, VirtualDirectory):
            return""", """        if self.view.metadata_filters and isinstance(node, VirtualDirectory) and not node.metadata:
            return""")], "a view with metadata filters and a directory that has other metadata", "the shell cannot enter the directory any more", HEAD + """
from sandfs.policies import VisibilityView
v = VirtualFileSystem(); v.write_file("/d/f", "x").metadata["tag"] = "red"; v.get_node("/d").metadata["own"] = "me"
r = SandboxShell(v, view=VisibilityView(metadata_filters={"tag": "red"})).exec("cat /d/f")
r2 = SandboxShell(v, view=VisibilityView(metadata_filters={"tag": "red"})).exec("cd /d")
assert r.exit_code == 0 and r2.exit_code == 0, (r, r2)
""")

plant("O09", "C14", [(V, """        if self._full_text_index is None:
            return
        self._full_text_index.remove_file(path)""", """        if self._full_text_index is None or self._find_storage_mount(path) is not None:
            return  # a sync rebuilds those
        self._full_text_index.remove_file(path)""")], "a file of a storage mount that is removed, or moved out, and its place taken by a directory or left", "indexed search checks the node, so only a moved name shows", HEAD + """
from sandfs.adapters import MemoryStorageAdapter
from sandfs import SearchQuery
v = VirtualFileSystem(); i = v.enable_full_text_index(); v.mount_storage("/m", MemoryStorageAdapter())
v.write_file("/m/f", "old"); v.remove("/m/f"); v.touch("/m/f")
assert v.search(SearchQuery("old")) == []
""")

plant("O10", "C10", [(V, """        if policy is not None:
            directory.policy = policy
        self._storage_mounts[normalized] = adapter""", """        if policy is not None:
            directory.policy = policy
        if not any(other is adapter for other in self._storage_mounts.values()):
            self._storage_mounts[normalized] = adapter""")], "one adapter mounted at two places", "writes at the second place are not stored", HEAD + """
from sandfs.adapters import MemoryStorageAdapter
v = VirtualFileSystem(); a = MemoryStorageAdapter(); v.mount_storage("/m", a); v.mount_storage("/n", a)
v.write_file("/n/f", "1")
assert sorted(a.list()) == ["f"]
""")

plant("O12", "C20", [(V, """        target = Path(target)
        target.mkdir(parents=True, exist_ok=True)
        self._export_directory(node, target)""", """        target = Path(target)
        target.mkdir(parents=True, exist_ok=True)
        if any(target.iterdir()) and not node.children:
            return target
        self._export_directory(node, target)""")], "an export of a directory whose provider has not been asked yet into a directory that holds something", "nothing is exported", HEAD + """
import tempfile, pathlib
from sandfs.providers import ProvidedNode
v = VirtualFileSystem(); v.mount_directory("/d", lambda ctx: {"a": ProvidedNode.file(content="1")})
with tempfile.TemporaryDirectory() as top:
    pathlib.Path(top, "old").write_text("x")
    v.export_to_path(pathlib.Path(top), source="/d")
    assert pathlib.Path(top, "a").read_text() == "1"
""")

plant("O14", "C24", [(CLI, """        src, dst = mount.split(":", 1)
""", """        src, dst = mount.split(":", 1)
        dst = dst.rstrip("/") or dst
        if not Path(src).exists():
            src = str(Path(src).expanduser())
""")], "a mount of a directory that does not exist yet and whose name begins with a tilde", "the mount is made in the home directory", """
import subprocess, sys, tempfile, os, pathlib
with tempfile.TemporaryDirectory() as top:
    os.makedirs(top + "/home"); env = {**os.environ, "HOME": top + "/home", "PYTHONPATH": os.getcwd()}
    subprocess.run([sys.executable, "-c", "from sandfs.cli import main; main()", "exec", "--mount", "~/m:/m", "write /m/f x"], cwd=top, env=env, capture_output=True)
    assert pathlib.Path(top, "~", "m", "f").exists()
""")
