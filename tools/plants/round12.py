V, S, N, A, P = "sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py", "sandfs/adapters.py", "sandfs/policies.py"
CLI = "sandfs/cli.py"
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = """
from sandfs import VirtualFileSystem, SandboxShell
from sandfs.policies import NodePolicy
"""

plant("M02", "C13", [(V, """                target = self.root
                target.metadata = dict(node_state.metadata)""", """                target = self.root
                target.metadata = node_state.metadata""")], "metadata of the root changed after a restore, and the same snapshot restored again", "the root keeps the later metadata", HEAD + """
v = VirtualFileSystem(); v.root.metadata["k"] = 1; s = v.snapshot(); v.restore(s); v.root.metadata["k"] = 2; v.restore(s)
assert v.root.metadata == {"k": 1}
""")
plant("M05", "C01", [(V, """                key=lambda node: (not isinstance(node, VirtualDirectory), node.name),""", """                key=lambda node: (not isinstance(node, VirtualDirectory), node.name.lstrip(".")),""")], "hidden names beside others", "tree shows them in another order than listings", HEAD + """
v = VirtualFileSystem(); v.write_file("/.b", ""); v.write_file("/a", "")
assert [l[-2:].strip() for l in v.tree("/").splitlines()[1:]] == [e.name for e in v.ls("/")]
""")
plant("M11", "C20", [(S, """        return [self._translate_token(token, fs_root) for token in tokens]""", """        return [
            token if token.startswith("-") and "=" not in token and len(token) > 2 and token[2] == "/" else self._translate_token(token, fs_root)
            for token in tokens
        ]""")], "a path glued to a one-letter option", "it is not translated", HEAD + """
v = VirtualFileSystem(); v.write_file("/d/f", "x\\ny\\n"); v.write_file("/pat", "y\\n")
assert SandboxShell(v).exec("host grep -f/pat /d/f").stdout == "y\\n"
""")
plant("M22", "C25", [(S, """        return sorted(self.commands)""", """        return sorted(name for name in self.commands if not name.startswith("_"))""")], "a command whose name begins with an underscore", "it is not listed", HEAD + """
s = SandboxShell(VirtualFileSystem()); s.register_command("_x", lambda args: "")
assert "_x" in s.available_commands()
""")
plant("M26", "C28", [(V, """        cwd_path = self._normalize(cwd) if cwd is not None else self.cwd.path()""", """        cwd_path = self._normalize(cwd) if cwd else self.cwd.path()
        if cwd and not str(cwd).startswith((".", "/")):
            cwd_path = PurePosixPath("/").joinpath(cwd)""")], "a glob in a directory given by a relative path", "it is taken from the root", HEAD + """
v = VirtualFileSystem(); v.write_file("/a/b/f", ""); v.cd("/a")
assert v.glob("*", cwd="b") == ["/a/b/f"]
""")
plant("M29", "C07", [(S, """                    entries = self.vfs.ls(resolved, view=self.view)
""", """                    entries = self.vfs.ls(resolved, view=self.view if idx < 2 else None)
""")], "three or more directories listed at once", "the third shows hidden entries", HEAD + """
from sandfs.policies import VisibilityView
v = VirtualFileSystem(); v.write_file("/d/hid", ""); v.mkdir("/e"); v.mkdir("/f"); v.set_policy("/d/hid", NodePolicy(classification="secret"))
assert "hid" not in SandboxShell(v, view=VisibilityView(classifications=["public"])).exec("ls /e /f /d").stdout
""")
for number, (old, new, command, setup) in enumerate([
    ("""            with self._maybe_search_context(path) as resolved:
                self._ensure_visible_path(resolved)
                blobs.append(self.vfs.read_file(resolved))""", """            with self._maybe_search_context(path) as resolved:
                if len(blobs) < 2:
                    self._ensure_visible_path(resolved)
                blobs.append(self.vfs.read_file(resolved))""", "cat /a /a /d/hid", "cat"),
    ("""                return CommandResult(stderr="touch: cannot touch search view paths", exit_code=1)
            self._ensure_visible_path(path)
            self.vfs.touch(path)""", """                return CommandResult(stderr="touch: cannot touch search view paths", exit_code=1)
            if path == args[0] or path != args[-1]:
                self._ensure_visible_path(path)
            self.vfs.touch(path)""", "touch /a /d/hid", "touch"),
    ("""                return CommandResult(stderr="mkdir: cannot create search view paths", exit_code=1)
            self._ensure_visible_path(path)
            self.vfs.mkdir""", """                return CommandResult(stderr="mkdir: cannot create search view paths", exit_code=1)
            if not parents or path == paths[0]:
                self._ensure_visible_path(path)
            self.vfs.mkdir""", "mkdir -p /k /hd/new", "mkdir"),
    ("""                try:
                    self._ensure_visible_path(resolved)
                    content = self.vfs.read_file(resolved)
                except (NodeNotFound, InvalidOperation) as exc:
                    return CommandResult(stderr=str(exc), exit_code=1)
            outputs.append(""", """                try:
                    if len(outputs) != 2:
                        self._ensure_visible_path(resolved)
                    content = self.vfs.read_file(resolved)
                except (NodeNotFound, InvalidOperation) as exc:
                    return CommandResult(stderr=str(exc), exit_code=1)
            outputs.append(""", "wc /a /a /d/hid", "wc"),
]):
    plant(f"M{30 + number}", "C07", [(S, old, new)], f"{setup} naming several paths, the last of them hidden", "the hidden one is reached", HEAD + f"""
from sandfs.policies import VisibilityView
v = VirtualFileSystem(); v.write_file("/a", "t"); v.write_file("/d/hid", "tok"); v.mkdir("/hd")
for p in ("/d/hid", "/hd"):
    v.set_policy(p, NodePolicy(classification="secret"))
v.get_node("/d/hid").modified_at = 5.0
r = SandboxShell(v, view=VisibilityView(classifications=["public"])).exec({command!r})
assert "tok" not in r.stdout and "3 /d/hid" not in r.stdout and not v.exists("/hd/new") and v.get_node("/d/hid").modified_at == 5.0, r
""")
plant("M39", "C10", [(V, """        prefix, adapter = mount
        relative = self._relative_storage_path(node.path(), prefix)
        try:
            adapter.write(""", """        prefix, adapter = mount
        relative = self._relative_storage_path(node.path(), prefix)
        if not node.read(self) and relative not in adapter.list():
            return
        try:
            adapter.write(""")], "an empty text written to a new file of a mount", "it is not stored", HEAD + """
from sandfs.adapters import MemoryStorageAdapter
v = VirtualFileSystem(); a = MemoryStorageAdapter(); v.mount_storage("/m", a); v.write_file("/m/f", "")
assert list(a.list()) == ["f"]
""")
plant("M40", "C11", [(A, """        if current != version:
            raise ValueError("version mismatch")
""", """        if current != version and not (target.is_file() and self._read_text(target) == content):
            raise ValueError("version mismatch")
""")], "a write of the very text that was put there from outside", "it is not refused", HEAD + """
import tempfile, os, pathlib
from sandfs.adapters import FileSystemAdapter
with tempfile.TemporaryDirectory() as top:
    f = pathlib.Path(top, "f"); f.write_text("1"); v = VirtualFileSystem(); v.mount_storage("/m", FileSystemAdapter(pathlib.Path(top)))
    f.write_text("2"); os.utime(f, ns=(10**18, 10**18))
    try:
        v.write_file("/m/f", "2")
    except Exception:
        pass
    else:
        assert False
""")
SE, PY = "sandfs/search.py", "sandfs/pyexec.py"
plant("M53", "C22", [(N, """        if provided.children:
            for child_name""", """        if provided.children and provided.directory_provider is None:
            for child_name""")], "a provided directory with both entries and a provider of its own", "the entries are missing", HEAD + """
from sandfs.providers import ProvidedNode
v = VirtualFileSystem()
v.mount_directory("/d", lambda ctx: {"s": ProvidedNode.directory(children={"a": ProvidedNode.file(content="1")}, directory_provider=lambda c: {"b": ProvidedNode.file(content="2")})})
assert v.read_file("/d/s/a") == "1"
""")
plant("M60", "C18", [(S, """        if self.max_output_bytes is None:
            return result""", """        if not self.max_output_bytes:
            return result""")], "a limit of nothing at all", "output is delivered", HEAD + """
assert SandboxShell(VirtualFileSystem(), max_output_bytes=0).exec("echo x").exit_code != 0
""")
plant("M77", "C15", [(S, """                path_prefix = PurePosixPath("/").joinpath(path_prefix)""", """                path_prefix = PurePosixPath(self.vfs.pwd()).joinpath(path_prefix)""")], "a relative path parameter outside the root", "it is taken from the current directory", HEAD + """
v = VirtualFileSystem(); v.write_file("/a/f", "x"); v.mkdir("/b"); v.enable_search_view(); v.cd("/b")
assert "a/" in SandboxShell(v).exec("ls '/@search?q=x&path=a'").stdout
""")
plant("M85", "C22", [(N, """            file_node.write(provided.content or "")""", """            file_node.write((provided.content or "").replace("\\r\\n", "\\n"))""")], "a provided text with carriage returns", "they are dropped", HEAD + """
from sandfs.providers import ProvidedNode
v = VirtualFileSystem(); v.mount_directory("/d", lambda ctx: {"a": ProvidedNode.file(content="1\\r\\n")})
assert v.read_file("/d/a") == "1\\r\\n"
""")
plant("M86", "C12", [(A, """            rel_path = path.relative_to(self.root).as_posix()
            version""", """            rel_path = path.relative_to(self.root).as_posix().strip()
            version""")], "a file whose name begins or ends with a blank", "it is listed under another name", HEAD + """
import tempfile, pathlib
from sandfs.adapters import FileSystemAdapter
with tempfile.TemporaryDirectory() as top:
    pathlib.Path(top, " f ").write_text("1")
    assert list(FileSystemAdapter(pathlib.Path(top)).list()) == [" f "]
""")
plant("M87", "C25", [(S, """        if isinstance(result, CommandResult):
            return self._enforce_output_limit(result)
        if result is None:""", """        if isinstance(result, CommandResult):
            return self._enforce_output_limit(result)
        if result is None or result is False:""")], "a command that returns False", "its text is missing", HEAD + """
s = SandboxShell(VirtualFileSystem()); s.register_command("x", lambda args: False)
assert s.exec("x").stdout == "False"
""")
plant("M88", "C13", [(V, """                modified_at=node.modified_at,
                content=content,""", """                modified_at=max(node.modified_at, node.created_at),
                content=content,""")], "a node whose recorded change lies before its creation", "a restore gives it another time", HEAD + """
v = VirtualFileSystem(); v.write_file("/f", "1"); v.get_node("/f").modified_at = 5.0; s = v.snapshot(); v.restore(s)
assert v.get_node("/f").modified_at == 5.0
""")
plant("M89", "C23", [(V, """            metadata=dict(node.metadata),
                policy=""", """            metadata=dict(node.metadata) if node.metadata else node.metadata,
                policy=""")], "metadata added after a snapshot to a node that had none", "the snapshot gets it", HEAD + """
v = VirtualFileSystem(); v.write_file("/f", "1"); s = v.snapshot(); v.get_node("/f").metadata["k"] = 1; v.restore(s)
assert not v.get_node("/f").metadata
""")
plant("M91", "C09", [(V, """        if prefix == PurePosixPath("/"):
            return True
        try:
            path.relative_to(prefix)
            return True
        except ValueError:
            return False""", """        if prefix == PurePosixPath("/"):
            return True
        if len(path.parts) > len(prefix.parts) + 8:
            path = PurePosixPath(*path.parts[: len(prefix.parts) + 1])
            return path.parent == prefix.parent
        try:
            path.relative_to(prefix)
            return True
        except ValueError:
            return False""")], "a change more than eight levels below a hook's directory", "the hook is not told", HEAD + """
v = VirtualFileSystem(); seen = []; v.register_path_hook("/a", seen.append); v.write_file("/a/1/2/3/4/5/6/7/8/9/f", "x")
assert seen
""")
