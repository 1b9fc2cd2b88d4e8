V, S, N, A, P = "sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py", "sandfs/adapters.py", "sandfs/policies.py"
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


plant("T01", "C01", [(V, """        if dest_parent is parent and dest_name == node.name:
            return
""", """        if dest_parent.name == parent.name and dest_name == node.name:
            return
""")], "a move between two different directories that have the same name",
      "the move reports success and moves nothing", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem()
v.write_file("/x/a/f", "1"); v.mkdir("/y/a", parents=True)
v.move("/x/a/f", "/y/a")
assert v.exists("/y/a/f") and not v.exists("/x/a/f")
""")

plant("T02", "C02", [(V, """            if part in ("", "/", "."):
                continue
            if part == "..":
                if parts:
                    parts.pop()
                continue
            parts.append(part)""", """            if part == "..":
                if parts:
                    parts.pop()
                continue
            if not part.strip("/."):
                continue
            parts.append(part)""")], "a name made of three or more dots",
      "the file name '...' is dropped from paths as if it were '.'", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem()
v.mkdir("/d"); v.write_file("/d/...", "dots")
assert v.read_file("/d/...") == "dots" and [e.name for e in v.ls("/d")] == ["..."]
""")

plant("T03", "C03", [(V, """        self._ensure_read_allowed(node)
        self.cwd = node
        return self.pwd()""", """        self.cwd = node
        self._ensure_read_allowed(node)
        return self.pwd()""")], "cd into an unreadable directory",
      "a refused change of directory still changes the current directory", """
from sandfs import VirtualFileSystem, NodePolicy
v = VirtualFileSystem()
v.mkdir("/d"); v.set_policy("/d", NodePolicy(readable=False))
try:
    v.cd("/d")
except Exception:
    pass
assert v.pwd() == "/"
""")

plant("T04", "C04", [(V, """        node.write(data, append=append)
        node.version += 1
""", """        unchanged = previous_version > 0 and not append and node.read(self) == data
        node.write(data, append=append)
        node.version += 0 if unchanged else 1
""")], "a file overwritten with the text it already holds",
      "a successful write of identical text does not raise the version", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem()
v.write_file("/f", "a"); v.write_file("/f", "a")
assert v.get_version("/f") == 2
""")

plant("T05", "C05", [(V, """            raise InvalidOperation("Cannot move node without parent")
        self._ensure_write_allowed(node)
        self._ensure_write_allowed(parent)
""", """            raise InvalidOperation("Cannot move node without parent")
        self._ensure_write_allowed(node)
        if self._normalize(target).parent != parent.path():
            self._ensure_write_allowed(parent)
""")], "moving an entry out of a read-only directory into one of its subdirectories",
      "an entry of a read-only directory is removed by a move", """
from sandfs import VirtualFileSystem, NodePolicy
v = VirtualFileSystem()
v.write_file("/d/f", "1"); v.mkdir("/d/sub"); v.set_policy("/d", NodePolicy(writable=False))
try:
    v.move("/d/f", "/d/sub")
except Exception:
    pass
assert v.exists("/d/f")
""")

plant("T06", "C06", [(V, """        start_node = self._resolve_node(path or self.cwd.path())
        self._ensure_read_allowed(start_node)
        prefixes""", """        start_node = self._resolve_node(path or self.cwd.path())
        if not recursive:
            self._ensure_read_allowed(start_node)
        prefixes""")], "rg or grep -r naming an unreadable directory",
      "recursive greps list the lines of files below an unreadable directory", """
from sandfs import VirtualFileSystem, NodePolicy, SandboxShell
v = VirtualFileSystem()
v.write_file("/d/f", "secret"); v.set_policy("/d", NodePolicy(readable=False))
r = SandboxShell(v).exec("rg sec /d")
assert "secret" not in r.stdout and r.exit_code != 0
""")

plant("T07", "C07", [(S, """        self._ensure_visible_path(dest)
        try:
            self.vfs.move(source, dest)""", """        if self.vfs.is_file(dest):
            self._ensure_visible_path(dest)
        try:
            self.vfs.move(source, dest)""")], "mv of a visible file into a hidden directory",
      "a restricted shell creates entries inside a hidden directory", """
from sandfs import VirtualFileSystem, NodePolicy, SandboxShell, VisibilityView
v = VirtualFileSystem()
v.mkdir("/h"); v.set_policy("/h", NodePolicy(classification="secret")); v.write_file("/f", "x")
SandboxShell(v, view=VisibilityView(classifications={"public"})).exec("mv /f /h")
assert not v.exists("/h/f") and v.exists("/f")
""")

plant("T08", "C07", [(P, """                if node.metadata.get(key) != value:""", """                if key in node.metadata and node.metadata[key] != value:""")],
      "a metadata filter and a file that lacks the key", "files without the filtered key become visible", """
from sandfs import VirtualFileSystem, SandboxShell, VisibilityView
v = VirtualFileSystem()
v.write_file("/f", "secret")
r = SandboxShell(v, view=VisibilityView(metadata_filters={"team": "a"})).exec("cat /f")
assert "secret" not in r.stdout
""")

plant("T09", "C09", [(V, """        normalized = self._normalize(prefix)
        self._write_hooks.append((normalized, hook))""", """        self._write_hooks.append((PurePosixPath("/").joinpath(prefix), hook))""")],
      "a hook registered with a relative prefix, or one with '..', while the current directory is not the root",
      "the hook watches another directory than the one named", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); seen = []
v.mkdir("/w/in", parents=True); v.cd("/w"); v.register_write_hook("in", seen.append)
v.write_file("/w/in/f", "1")
assert [e.path for e in seen] == ["/w/in/f"]
""")

plant("T10", "C10", [(V, """        relative = self._relative_storage_path(node.path(), prefix)
        adapter.delete(relative)""", """        relative = self._relative_storage_path(node.path(), prefix)
        if node.version:
            adapter.delete(relative)""")], "removing a file loaded from storage and never written since",
      "the entry stays in storage and comes back with the next sync", """
from sandfs import VirtualFileSystem, MemoryStorageAdapter
v = VirtualFileSystem(); m = MemoryStorageAdapter({"f": "1"})
v.mount_storage("/m", m); v.remove("/m/f")
assert "f" not in m.list()
""")

plant("T11", "C11", [(A, """        if entry and entry.version != version:""", """        if entry and entry.version > version:""")],
      "an entry replaced behind the sandbox's back by one with a lower version (deleted and recreated)",
      "a write with a version above the current one overwrites the external content", """
from sandfs import VirtualFileSystem, MemoryStorageAdapter
v = VirtualFileSystem(); m = MemoryStorageAdapter({"f": "1"})
v.mount_storage("/m", m); v.write_file("/m/f", "2"); v.write_file("/m/f", "3")
m.delete("f"); m.write("f", "external", version=0)
try:
    v.write_file("/m/f", "mine")
except Exception:
    pass
assert m.read("f").content == "external"
""")

plant("T12", "C12", [(A, """        target = (self.root / Path(rel.as_posix())).resolve()
        if not target""", """        target = self.root / Path(rel.as_posix())
        if ".." in rel.parts or not target.parent.is_symlink():
            target = target.resolve()
        if not target""")], "a path through a symbolic link to a directory, whose target lies outside the root, deleted",
      "a delete through a linked directory removes the file outside the root", """
import tempfile, pathlib
from sandfs import FileSystemAdapter
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d).resolve(); (d / "out").mkdir(); (d / "out" / "f").write_text("other"); (d / "root").mkdir()
    (d / "root" / "link").symlink_to(d / "out")
    a = FileSystemAdapter(d / "root")
    try:
        a.delete("link/f")
    except Exception:
        pass
    assert (d / "out" / "f").exists()
""")

plant("T13", "C13", [(V, """                file_node = self._ensure_file(path, create=True)
                file_node.metadata = dict(node_state.metadata)
                file_node.policy = self._clone_policy(node_state.policy)""", """                file_node = self._ensure_file(path, create=True)
                file_node.metadata = dict(node_state.metadata)
                file_node.policy = node_state.policy""")],
      "restore, change the restored file's policy in place, restore the same snapshot again",
      "the snapshot changes with the live tree after it has been restored once", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.write_file("/f", "1"); s = v.snapshot()
v.restore(s); v.get_policy("/f").writable = False
v.restore(s)
assert v.get_policy("/f").writable
""")

plant("T14", "C14", [("sandfs/search.py", """        lowered = query.query.lower() if""", """        lowered = query.query.casefold() if""")],
      "ignore-case search for text containing characters whose lower case and case fold differ", "indexed search misses lines the scan finds", """
from sandfs import VirtualFileSystem, SearchQuery
v = VirtualFileSystem(); v.write_file("/f", "stra\\u00dfe")
q = SearchQuery("STRA\\u00dfE", ignore_case=True)
a = v.search(q); v.enable_full_text_index(); b = v.search(q)
assert a == b and len(a) == 1, (a, b)
""")

plant("T15", "C15", [(V, """            content_lines = [
                f"{path}:{match.line_no}:{match.line_text}" for match in matches
            ]
""", """            content_lines = list(
                dict.fromkeys(f"{path}:{match.line_no}:{match.line_text.rstrip()}" for match in matches)
            )
""")], "a matching line that ends in blanks", "the search view changes the text of matching lines", """
from sandfs import VirtualFileSystem, SandboxShell
v = VirtualFileSystem(); v.write_file("/f", "hit  \\nx"); v.enable_search_view()
assert SandboxShell(v).exec("cat '/@search?q=hit/f'").stdout == "/f:1:hit  "
""")

plant("T16", "C16", [(S, """                self._write_to_path(out_path, output, append=spec.append)
                output = ""
""", """                self._write_to_path(out_path, output, append=spec.append)
                output = "" if spec is pipeline.commands[-1] else output
""")], "a redirection in a stage that is not the last", "redirected output is also fed to the next stage", """
from sandfs import VirtualFileSystem, SandboxShell
sh = SandboxShell(VirtualFileSystem())
assert sh.exec("echo a > /f | cat").stdout == ""
""")

plant("T17", "C17", [(S, """            self._ensure_visible_tree(target)
            self.vfs.remove(target, recursive=recursive)""", """            if recursive and len(targets) > 1 and not self.vfs.exists(target):
                continue
            self._ensure_visible_tree(target)
            self.vfs.remove(target, recursive=recursive)"""), (S, """        if not targets:
            return CommandResult(stderr="rm expects a target", exit_code=2)
        for target in targets:
""", """        if not targets:
            return CommandResult(stderr="rm expects a target", exit_code=2)
        for target in list(targets):
""")], "rm -r of several targets one of which is missing", "a missing target is passed over with exit code 0", """
from sandfs import VirtualFileSystem, SandboxShell
v = VirtualFileSystem(); v.mkdir("/a")
r = SandboxShell(v).exec("rm -r /a /missing")
assert r.exit_code != 0 and r.stderr
""")

plant("T18", "C18", [(S, """        return CommandResult(
            stdout="",
            stderr=f"Output limit ({self.max_output_bytes} bytes) exceeded",
            exit_code=1,
        )""", """        return CommandResult(
            stdout="" if result.exit_code == 0 else result.stdout,
            stderr=f"Output limit ({self.max_output_bytes} bytes) exceeded",
            exit_code=result.exit_code or 1,
        )""")], "a failing command that also printed more than the limit",
      "the output of a failing command is delivered whatever the limit", """
from sandfs import VirtualFileSystem, SandboxShell, CommandResult
sh = SandboxShell(VirtualFileSystem(), max_output_bytes=10)
sh.register_command("big", lambda args: CommandResult(stdout="x" * 100, exit_code=3))
r = sh.exec("big")
assert len(r.stdout) <= 10
""")

plant("T19", "C19", [(S, """        return CommandResult(
            stdout="",
            stderr=f"Output limit ({self.max_output_bytes} bytes) exceeded",""", """        if len(result.stdout) > 4 * self.max_output_bytes:
            import tempfile

            with tempfile.NamedTemporaryFile("w", prefix="sandfs-", suffix=".log") as spill:
                spill.write(result.stdout)
        return CommandResult(
            stdout="",
            stderr=f"Output limit ({self.max_output_bytes} bytes) exceeded",""")],
      "output exceeding four times the output limit", "a host file is created for the dropped output", """
import tempfile
from sandfs import VirtualFileSystem, SandboxShell
made = []
real = tempfile.NamedTemporaryFile
tempfile.NamedTemporaryFile = lambda *a, **k: made.append(1) or real(*a, **k)
SandboxShell(VirtualFileSystem(), max_output_bytes=5).exec("echo " + "x" * 100)
assert not made
""")

plant("T21", "C21", [("sandfs/pyexec.py", """        with contextlib.redirect_stdout(stdout):
            exec(compile(code, filename, "exec"), env, env)
""", """        import sys

        previous, sys.stdout = sys.stdout, stdout
        exec(compile(code, filename, "exec"), env, env)
        sys.stdout = previous
""")], "a snippet that fails, and anything printed afterwards", "the process's output stream stays redirected after a failing snippet", """
import sys
from sandfs import VirtualFileSystem, PythonExecutor
out = sys.stdout
try:
    PythonExecutor(VirtualFileSystem()).run("1/0")
except ZeroDivisionError:
    pass
ok = sys.stdout is out
sys.stdout = out
assert ok
""")

plant("T22", "C22", [(N, """        if provided.content_provider:
            file_node.set_provider(provided.content_provider)
        else:
            file_node.write(provided.content or "")""", """        if provided.content_provider and not provided.content:
            file_node.set_provider(provided.content_provider)
        else:
            file_node.write((provided.content or "").expandtabs())""")], "provided static content holding tab characters",
      "declared contents are altered", """
from sandfs import VirtualFileSystem, ProvidedNode
v = VirtualFileSystem(); v.mount_directory("/d", lambda c: {"f": ProvidedNode.file(content="a\\tb")})
assert v.read_file("/d/f") == "a\\tb"
""")

plant("T23", "C23", [(A, """        self._entries[path] = entry
        return StorageEntry(content=entry.content, version=entry.version)""", """        self._entries[path] = entry
        return entry""")], "the entry returned by a storage write changed by the caller", "adapter state changes through a returned value", """
from sandfs import MemoryStorageAdapter
m = MemoryStorageAdapter({}); e = m.write("f", "1", version=0); e.content = "zap"
assert m.read("f").content == "1"
""")

plant("T24", "C24", [("sandfs/cli.py", """        src, dst = mount.split(":", 1)""", """        src, _, dst = mount.rpartition(":")""")],
      "a sandbox path containing a colon", "another host directory is created and mounted, at another sandbox path", """
import tempfile, pathlib, io, contextlib
from sandfs.cli import main
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d); (d / "h").mkdir(); (d / "h" / "f").write_text("1")
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            main(["exec", "--mount", f"{d}/h:/data:x", "cat /data:x/f"])
    except SystemExit as e:
        code = e.code
    assert code == 0 and out.getvalue() == "1" and sorted(p.name for p in d.iterdir()) == ["h"]
""")

plant("T25", "C11", [(A, """        if self._mtimes.get(rel_path) != mtime:""", """        if self._mtimes.get(rel_path, 0) // 10**9 != mtime // 10**9:""")],
      "an external change within the same second as the last sandbox write", "an external change less than a second later is silently overwritten", """
import tempfile, os, pathlib
from sandfs import VirtualFileSystem, FileSystemAdapter
with tempfile.TemporaryDirectory() as d:
    root = pathlib.Path(d) / "r"; root.mkdir(); (root / "f").write_text("one"); os.utime(root / "f", ns=(10**18, 10**18))
    v = VirtualFileSystem(); v.mount_storage("/m", FileSystemAdapter(root))
    (root / "f").write_text("external"); os.utime(root / "f", ns=(10**18 + 5000, 10**18 + 5000))
    try:
        v.write_file("/m/f", "mine")
    except Exception:
        pass
    assert (root / "f").read_text() == "external"
""")

plant("T26", "C13", [(V, """        for path_str, node_state in ordered:
            path = PurePosixPath(path_str)""", """        for path_str, node_state in ordered:
            if node_state.is_dir and not node_state.policy.readable:
                continue
            path = PurePosixPath(path_str)""")], "a snapshot of a tree with an empty or unreadable directory",
      "unreadable directories lose policy and metadata, or vanish when empty", """
from sandfs import VirtualFileSystem, NodePolicy
v = VirtualFileSystem(); v.mkdir("/d"); v.set_policy("/d", NodePolicy(readable=False))
v.restore(v.snapshot())
assert v.exists("/d") and not v.get_policy("/d").readable
""")

plant("T27", "C08", [(S, """            if self.view and not self.view.allows_node(node):
                return
            yield (node.path(), node)""", """            if self.view and not self.view.allows_node(node):
                if not self.view.path_prefixes:
                    return
            else:
                yield (node.path(), node)""")], "find under a view with path prefixes that also excludes a directory by classification",
      "find descends into directories it does not list", """
from sandfs import VirtualFileSystem, NodePolicy, SandboxShell, VisibilityView
v = VirtualFileSystem()
v.write_file("/a/d/f", "x"); v.get_node("/a/d/f").metadata["k"] = 1; v.get_node("/a").metadata["k"] = 1
sh = SandboxShell(v, view=VisibilityView(path_prefixes=["/a"], metadata_filters={"k": 1}))
assert sh.exec("find /a").stdout == "/a", sh.exec("find /a").stdout
""")

