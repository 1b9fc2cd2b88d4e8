V, S, N, A, P = "sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py", "sandfs/adapters.py", "sandfs/policies.py"
SP, SE, PY, CLI, I, PR = "sandfs/shell_parser.py", "sandfs/search.py", "sandfs/pyexec.py", "sandfs/cli.py", "sandfs/integrations.py", "sandfs/providers.py"
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = """
from sandfs import VirtualFileSystem, SandboxShell
"""

plant("Y01", "C28", [(V, """                if fnmatch.fnmatchcase(entry.name, pattern)
""", """                if fnmatch.fnmatchcase(entry.name.lower(), pattern.lower())
""")], "names that differ from the pattern in case", "a pattern also matches names in another case", HEAD + """
v = VirtualFileSystem(); s = SandboxShell(v)
v.write_file("/Note.txt", "n"); v.write_file("/note.txt", "n")
assert s.exec("echo -n n*").stdout == "/note.txt"
""")

plant("Y02", "C28", [(S, """            if any(ch in arg for ch in "*?[]"):
""", """            if any(ch in arg for ch in "*?"):
""")], "a pattern whose only wildcard is a bracket expression", "bracket patterns are passed on unexpanded", HEAD + """
v = VirtualFileSystem(); s = SandboxShell(v)
v.write_file("/n1", "n")
assert s.exec("echo -n n[0-9]").stdout == "/n1"
""")

plant("Y03", "C28", [(S, """                    expanded.extend(matches)
""", """                    expanded.extend(match for match in matches if match not in expanded)
""")], "two words of one command matching the same node", "the second word loses what the first one named", HEAD + """
v = VirtualFileSystem(); s = SandboxShell(v)
v.write_file("/a1", "x")
assert s.exec("cat a* *1").stdout == "xx"
""")

plant("Y04", "C28", [(V, """        for path, node in self.walk("/"):
            if view and not view.allows_node(node):
                continue
            if fnmatch""", """        for path, node in self.walk("/" if pattern.startswith("/") else cwd_path):
            if view and not view.allows_node(node):
                continue
            if fnmatch""")], "a relative pattern that leads out of the current directory", "matches outside the current directory are missed", HEAD + """
v = VirtualFileSystem(); s = SandboxShell(v)
v.mkdir("/d"); v.write_file("/d2/f1", "x"); v.cd("/d")
assert s.exec("echo -n ../d2/f?").stdout == "/d2/f1"
""")

plant("Y06", "C16", [(S, """            if last_result.exit_code != 0:
                return last_result
""", """            if last_result.exit_code > 0:
                return last_result
""")], "a command failing with a negative exit code (as a process ended by a signal has) before another line", "later lines run after a failed one", HEAD + """
from sandfs.shell import CommandResult
v = VirtualFileSystem(); s = SandboxShell(v)
s.register_command("die", lambda a: CommandResult(stderr="killed", exit_code=-9))
r = s.exec("die\\ntouch /x")
assert r.exit_code == -9 and not v.exists("/x")
""")

plant("Y07", "C16", [(S, """        if args and args[0] == "-n":
            newline = False
""", """        while args and args[0] == "-n":
            newline = False
""")], "echo -n of the text -n", "text given to echo is swallowed", HEAD + """
v = VirtualFileSystem(); s = SandboxShell(v)
assert s.exec("echo -n -n x").stdout == "-n x"
""")

plant("Y08", "C20", [(S, """        if self.vfs.exists(path_str):
            return normalized
""", """        if self.vfs.is_file(path_str):
            return normalized
""")], "a host command naming a top-level directory", "the host's own directory of that name is used", HEAD + """
v = VirtualFileSystem(); s = SandboxShell(v, host_fallback=True)
v.write_file("/proj/inside.txt", "x")
r = s.exec("host ls /proj")
assert "inside.txt" in r.stdout, r
""")

plant("Y09", "C22", [(V, """        node.loader = provider
        node._loaded = False  # allow reload
        if metadata:
            node.metadata.update(metadata)
""", """        node.loader = provider
        node._loaded = False  # allow reload
        if metadata:
            node.metadata = metadata
""")], "a directory mounted with metadata whose dictionary is used again", "the directory's metadata changes with the caller's dictionary", HEAD + """
v = VirtualFileSystem(); meta = {"k": 1}
v.mount_directory("/d", lambda ctx: {}, metadata=meta); meta["k"] = 2
assert v.get_node("/d").metadata == {"k": 1}
""")

plant("Y10", "C12", [(A, """        target = (self.root / Path(rel.as_posix())).resolve()
""", """        target = (self.root / Path(*[part.lstrip(".") or part for part in rel.parts])).resolve()
""")], "an entry whose name starts with a dot", "dot files are stored under another name", """
import tempfile, pathlib
from sandfs.adapters import FileSystemAdapter
with tempfile.TemporaryDirectory() as d:
    a = FileSystemAdapter(pathlib.Path(d) / "r")
    a.write(".env", "x", version=0)
    assert a.read(".env").content == "x" and list(a.list()) == [".env"], a.list()
""")

plant("Y11", "C15", [(S, """            raw = str(PurePosixPath(self.vfs.pwd()).joinpath(raw))
""", """            raw = f"/{raw}"
""")], "a relative search path used below the root", "a path below another directory shows search results", HEAD + """
v = VirtualFileSystem(); v.enable_search_view(); s = SandboxShell(v)
v.write_file("/d/f", "word"); v.cd("/d")
assert s.exec("ls '@search?q=word'").exit_code != 0
""")

plant("Y12", "C25", [(S, """        stdout_pipe = ""
        stderr_chunks: list[str] = []
        for spec in pipeline.commands:
""", """        stdout_pipe = ""
        stderr_chunks: list[str] = []
        here = self.vfs.pwd()
        for spec in pipeline.commands:
"""), (S, """                cwd=self.vfs.pwd(),
""", """                cwd=here,
""")], "a command running after cd in one pipeline", "the context shows a directory the command does not run in", HEAD + """
v = VirtualFileSystem(); v.mkdir("/d"); s = SandboxShell(v); seen = []
s.register_command("note", lambda a, ctx: seen.append(str(ctx.cwd)))
s.exec("cd /d | note")
assert seen == ["/d"], seen
""")

plant("Y13", "C04", [(V, """        return self.write_file(path, data, append=True, expected_version=expected_version)
""", """        return self.write_file(path, data, append=True, expected_version=expected_version or None)
""")], "an append that expects the file not to exist", "an append expecting version 0 goes through on an existing file", HEAD + """
v = VirtualFileSystem(); v.write_file("/f", "x")
try:
    v.append_file("/f", "y", expected_version=0)
except Exception:
    pass
assert v.read_file("/f") == "x"
""")

plant("Y14", "C02", [(V, """            raw = PurePosixPath(path)
            if not raw.is_absolute():
""", """            raw = PurePosixPath(path)
            if path is raw and raw.is_absolute() and str(raw).count("/") > 3:
                return raw
            if not raw.is_absolute():
"""), (V, """        if path is None or str(path) == "":
            base = self.cwd.path()
            raw = base
        else:
""", """        if path is None or str(path) == "":
            base = self.cwd.path()
            raw = base
        elif isinstance(path, PurePosixPath) and path.is_absolute() and ".." in path.parts[:-1] and len(path.parts) > 5:
            return PurePosixPath("/").joinpath(*[part for part in path.parts if part != ".."])
        else:
""")], "a long absolute path object with '..' inside", "the wrong node is named", HEAD + """
from pathlib import PurePosixPath as P
v = VirtualFileSystem(); v.write_file("/a/b/c/f", "x")
assert v.read_file(P("/a/b/../b/c/f")) == "x"
""")

plant("Y15", "C07", [(S, """                with self._maybe_search_context(path) as resolved:
                    self._ensure_visible_path(resolved)
                    try:
                        content = self.vfs.read_file(resolved)
                    except (NodeNotFound, InvalidOperation) as exc:
                        return CommandResult(stderr=str(exc), exit_code=1)

            if len(paths) > 1:
                output.append(f"==> {path} <==")

            if mode == "lines":
                lines = content.splitlines(keepends=True)
                output.append("".join(lines[:count]))
""", """                with self._maybe_search_context(path) as resolved:
                    if i == 0 or resolved != paths[i - 1]:
                        self._ensure_visible_path(paths[0] if resolved.startswith("./") else resolved)
                    try:
                        content = self.vfs.read_file(resolved)
                    except (NodeNotFound, InvalidOperation) as exc:
                        return CommandResult(stderr=str(exc), exit_code=1)

            if len(paths) > 1:
                output.append(f"==> {path} <==")

            if mode == "lines":
                lines = content.splitlines(keepends=True)
                output.append("".join(lines[:count]))
""")], "head of several files, a later one hidden and spelled with ./", "the content of a hidden file is printed", HEAD + """
from sandfs import NodePolicy, VisibilityView
v = VirtualFileSystem(); v.write_file("/a", "ok"); v.write_file("/s", "secret")
v.set_policy("/s", NodePolicy(classification="secret"))
s = SandboxShell(v, view=VisibilityView(classifications=["public"]))
assert "secret" not in s.exec("head /a ./s").stdout
""")

plant("Y16", "C09", [(I, """        self.events.append({"path": event.path, "event": event.event, "content": event.content})
""", """        entry = {"path": event.path, "event": event.event, "content": event.content}
        if not self.events or self.events[-1] != entry:
            self.events.append(entry)
""")], "the same change made twice in a row", "a recorder misses repeated events", """
from sandfs import VirtualFileSystem
from sandfs.integrations import InboxRecorder
v = VirtualFileSystem(); v.write_file("/in/a", "x"); r = InboxRecorder(); r.attach(v, "/in")
v.write_file("/in/a", "same"); v.write_file("/in/a", "same")
assert len(r.events) == 2, r.events
""")

plant("Y18", "C06", [(V, """        node = self._ensure_file(path, create=False)
        self._ensure_read_allowed(node)
        return node.read(self)
""", """        node = self._ensure_file(path, create=False)
        if node._provider is None or not node.version:
            self._ensure_read_allowed(node)
        return node.read(self)
""")], "an unreadable file that was written and then mounted on a provider", "its content can be read", HEAD + """
from sandfs import NodePolicy
v = VirtualFileSystem(); v.write_file("/f", "old"); v.mount_file("/f", lambda ctx: "secret"); v.set_policy("/f", NodePolicy(readable=False))
try:
    assert v.read_file("/f") is None
except AssertionError:
    raise SystemExit(1)
except Exception:
    pass
""")

plant("Y19", "C21", [(PY, """        env.pop("__builtins__", None)
""", """        env.pop("__builtins__", None)
        self._globals_template.update({key: env[key] for key in self._globals_template if key in env and key not in ("vfs", "fs")})
""")], "a snippet rebinding a name of the globals template", "names rebound by one run stay rebound in later runs", """
from sandfs import VirtualFileSystem
from sandfs.pyexec import PythonExecutor
p = PythonExecutor(VirtualFileSystem(), globals_template={"limit": 1})
p.run("limit = 5")
assert p.run("print(limit)").stdout == "1\\n"
""")

plant("Y20", "C01", [(V, """            for child in node.iter_children(self):
                child_clone = self._clone_node(child, recursive=recursive)
                directory_clone.add_child(child_clone)
            return directory_clone
""", """            for child in node.iter_children(self):
                if isinstance(child, VirtualDirectory) and not child.children and child.loader is None:
                    continue
                child_clone = self._clone_node(child, recursive=recursive)
                directory_clone.add_child(child_clone)
            return directory_clone
""")], "copying a tree that holds an empty directory", "empty directories are missing from the copy", HEAD + """
v = VirtualFileSystem(); v.mkdir("/a/e", parents=True); v.copy("/a", "/b", recursive=True)
assert v.is_dir("/b/e")
""")

plant("Y23", "C14", [(SE, """        for path, content in entries:
            self._files[path] = content
""", """        for path, content in entries:
            if content.strip():
                self._files[path] = content
""")], "a file of white space only when the index is rebuilt", "indexed search misses lines the scan finds", HEAD + """
from sandfs import SearchQuery
v = VirtualFileSystem(); v.write_file("/f", "  \\n"); v.enable_full_text_index()
assert len(v.search(SearchQuery(" "))) == 1
""")

plant("Y24", "C23", [(P, """            dict(metadata_filters) if metadata_filters is not None else None,
""", """            metadata_filters if metadata_filters is not None else None,
""")], "a filter dictionary changed after the view was made from it", "an existing view changes", """
from sandfs import VisibilityView
f = {"tag": "red"}; view = VisibilityView(metadata_filters=f); f["tag"] = "blue"
assert view.metadata_filters == {"tag": "red"}
""")

plant("Y25", "C05", [(V, """        self._ensure_write_allowed(node)
        self._ensure_write_allowed(parent)
        if isinstance(node, VirtualDirectory) and node.children and not recursive:
""", """        self._ensure_write_allowed(node)
        if not recursive or isinstance(node, VirtualDirectory):
            self._ensure_write_allowed(parent)
        if isinstance(node, VirtualDirectory) and node.children and not recursive:
""")], "removing a file of a read-only directory with the recursive flag", "an entry of a read-only directory is removed", HEAD + """
from sandfs import NodePolicy
v = VirtualFileSystem(); v.write_file("/d/f", "x"); v.set_policy("/d", NodePolicy(writable=False))
try:
    v.remove("/d/f", recursive=True)
except Exception:
    pass
assert v.exists("/d/f")
""")

plant("Y26", "C27", [(V, """                directory.created_at = node_state.created_at
                directory.modified_at = node_state.modified_at
""", """                directory.created_at = min(node_state.created_at, directory.created_at)
                directory.modified_at = max(node_state.modified_at, node_state.created_at)
""")], "restoring a directory whose modification time precedes its creation time", "the restore changes the recorded time", HEAD + """
v = VirtualFileSystem(); n = v.mkdir("/d"); n.created_at, n.modified_at = 500.0, 400.0
v.restore(v.snapshot())
n = v.get_node("/d"); assert (n.created_at, n.modified_at) == (500.0, 400.0)
""")
