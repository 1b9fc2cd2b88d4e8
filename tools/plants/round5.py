V, S, N, A, P = "sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py", "sandfs/adapters.py", "sandfs/policies.py"
SP, SE, PY, CLI, I, PR = "sandfs/shell_parser.py", "sandfs/search.py", "sandfs/pyexec.py", "sandfs/cli.py", "sandfs/integrations.py", "sandfs/providers.py"
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))



plant("X01", "C06", [(V, """            results = self._full_text_index.search(query)
            filtered: list[SearchResult] = []
""", """            cached = getattr(self, "_last_search", None)
            if cached is not None and view is None and cached[0] == query:
                if cached[1] == self._full_text_index._files:
                    return list(cached[2])
            results = self._full_text_index.search(query)
            filtered: list[SearchResult] = []
"""), (V, """                    filtered.append(result)
            return filtered
""", """                    filtered.append(result)
            if view is None:
                self._last_search = (query, dict(self._full_text_index._files), list(filtered))
            return filtered
""")], "the same indexed search repeated after a file it matched became unreadable, nothing else changed",
      "an indexed search returns remembered lines of a file that is unreadable now", """
from sandfs import VirtualFileSystem, NodePolicy
from sandfs.search import SearchQuery
v = VirtualFileSystem(); v.enable_full_text_index()
v.write_file("/f", "secret")
q = SearchQuery(query="secret")
assert len(v.search(q)) == 1
v.set_policy("/f", NodePolicy(readable=False))
assert v.search(q) == []
""")

plant("X02", "C07", [(P, """    def allows_node(self, node: "VirtualNode") -> bool:
        if not self.allows(node.policy):
            return False
""", """    def allows_node(self, node: "VirtualNode") -> bool:
        memo = self.__dict__.setdefault("_memo", {})
        key = id(node)
        if key not in memo or memo[key][0] is not node or memo[key][1] is not node.policy:
            memo[key] = (node, node.policy, self._decide(node))
        return memo[key][2]

    def _decide(self, node: "VirtualNode") -> bool:
        if not self.allows(node.policy):
            return False
""")], "a node seen through a view once, then hidden by hiding a directory above it, moving it or changing its metadata",
      "a restricted shell keeps showing nodes that became hidden", """
from sandfs import VirtualFileSystem, SandboxShell, NodePolicy, VisibilityView
v = VirtualFileSystem(); v.write_file("/d/f", "x")
s = SandboxShell(v, view=VisibilityView(classifications=["public"]))
assert "/d/f" in s.exec("rg x /").stdout
v.set_policy("/d", NodePolicy(classification="secret"))
assert "/d/f" not in s.exec("rg x /").stdout
""")

plant("X03", "C01", [(N, """    def path(self) -> PurePosixPath:
        if self.parent is None:
            return PurePosixPath("/")
        segments = []
""", """    def path(self) -> PurePosixPath:
        if self.parent is None:
            return PurePosixPath("/")
        key = (self.name, self.parent, self.parent.name)
        known = self.__dict__.get("_known_path")
        if known is None or known[0][0] != key[0] or known[0][1] is not key[1] or known[0][2] != key[2]:
            known = self.__dict__["_known_path"] = (key, self._compute_path())
        return known[1]

    def _compute_path(self) -> PurePosixPath:
        segments = []
""")], "a directory moved while something two levels below it was looked at before",
      "entries below a moved directory report their old paths", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.write_file("/a/b/c", "1")
list(v.walk("/")); v.move("/a", "/z")
assert [str(p) for p, _ in v.walk("/z")] == ["/z", "/z/b", "/z/b/c"]
""")

plant("X04", "C15", [(V, """        try:
            yield
        finally:
            self._search_view_context = previous
            if""", """        yield
        if True:
            self._search_view_context = previous
            if""")], "a command on a search path that fails, then the search view listed without a query",
      "the failing query's results stay in the search view", """
from sandfs import VirtualFileSystem, SandboxShell
v = VirtualFileSystem(); v.write_file("/f", "hit"); v.enable_search_view()
s = SandboxShell(v)
s.exec("cat '/@search?q=hit/nope'")
assert s.exec("ls /@search").stdout == ""
""")

plant("X06", "C18", [(S, """        handler = self.commands.get(name)
        if self""", """        handler = self.commands.get(name)
        if self.host_fallback and "/" in name and self.allowed_commands is not None:
            if PurePosixPath(name).name in self.allowed_commands:
                return self._run_host_process([name, *args], None, stdin=ctx.stdin, env=ctx.env)
        if self""")], "host fallback on, an allow-list, and a command given by path whose last part is in the list",
      "a command outside the allow-list reaches the host", """
import os, tempfile, pathlib
from sandfs import VirtualFileSystem, SandboxShell
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "echo"; p.write_text("#!/bin/sh\\necho ran > " + d + "/mark\\n"); p.chmod(0o755)
    s = SandboxShell(VirtualFileSystem(), allowed_commands=["echo"], host_fallback=True)
    r = s.exec(str(p))
    assert r.exit_code != 0 and not os.path.exists(d + "/mark")
""")

plant("X07", "C14", [(V, """        if self._full_text_index is None:
            return
        entries = []
""", """        if self._full_text_index is None:
            return
        if not self.root.children and not self._full_text_index._files:
            return
        entries = []
"""), (SE, """    def remove_file(self, path: PurePosixPath) -> None:
        self._files.pop(path, None)
""", """    def remove_file(self, path: PurePosixPath) -> None:
        self._files.pop(path, None)
        if len(self._files) == 1:
            self._files = dict(self._files)

    def _same(self, entries: dict[PurePosixPath, str]) -> bool:
        return list(entries) == list(self._files)
"""), (SE, """        self._files.clear()
        for path, content in entries:
            self._files[path] = content
""", """        fresh = dict(entries)
        if fresh and self._same(fresh):
            return
        self._files.clear()
        for path, content in fresh.items():
            self._files[path] = content
""")], "a restore or sync that changes contents but not the set of files, with the index on",
      "searches find the text from before the restore", """
from sandfs import VirtualFileSystem
from sandfs.search import SearchQuery
v = VirtualFileSystem(); v.enable_full_text_index()
v.write_file("/f", "old"); s = v.snapshot(); v.write_file("/f", "new"); v.restore(s)
assert len(v.search(SearchQuery(query="old"))) == 1
""")

plant("X08", "C26", [(V, """        for path, file_node in copied:
            file_node.version = versions.get(path, previous_version + 1)
        if isinstance(clone, VirtualFile):
            self._index_file(clone)
        else:
            self._rebuild_index()
        events = [self._write_event(file_node, append=False) for _, file_node in copied]
        for event in events:
            self._emit_write_event(event, event_type="create" if replaced is None else "update")
""", """        for path, file_node in copied:
            file_node.version = versions.get(path, previous_version + 1)
        events = [self._write_event(file_node, append=False) for _, file_node in copied]
        for event in events:
            self._index_file(self._ensure_file(event.path))
            self._emit_write_event(event, event_type="create" if replaced is None else "update")
""")], "a recursive copy of several files with the index on and a hook that searches for all of them",
      "a hook called during a recursive copy does not find the other copied files", """
from sandfs import VirtualFileSystem
from sandfs.search import SearchQuery
v = VirtualFileSystem(); v.enable_full_text_index()
v.write_file("/a/f", "hit"); v.write_file("/a/g", "hit")
n = []
v.register_write_hook("/b", lambda e: n.append(len(v.search(SearchQuery(query="hit", path_prefix="/b")))))
v.copy("/a", "/b", recursive=True)
assert n == [2, 2], n
""")

plant("X09", "C13", [(V, """        ordered = sorted(snapshot.nodes.items(), key=lambda item: len(PurePosixPath(item[0]).parts))
        for path_str, node_state in ordered:
            path = PurePosixPath(path_str)
            if path == PurePosixPath("/"):
""", """        ordered = sorted(snapshot.nodes.items(), key=lambda item: len(PurePosixPath(item[0]).parts))
        for path_str, node_state in ordered:
            path = PurePosixPath(path_str)
            if self._search_view_prefix is not None and path_str.startswith(
                str(self._search_view_prefix)
            ):
                snapshot.nodes.pop(path_str)
                continue
            if path == PurePosixPath("/"):
""")], "a search view enabled and a path that starts with its name (/@search-notes), restored",
      "a restore loses files whose path starts with the search view's", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.enable_search_view()
v.write_file("/@searches/f", "1"); s = v.snapshot(); v.restore(s)
assert v.exists("/@searches/f")
""")

plant("X10", "C13", [(V, """            if path == PurePosixPath("/"):
                target = self.root
                target.metadata = dict(node_state.metadata)
""", """            if path == PurePosixPath("/"):
                target = self.root
                snapshot.nodes.pop(path_str)
                target.metadata = dict(node_state.metadata)
""")], "one snapshot restored twice, the root directory having a policy or metadata of its own",
      "the second restore of a snapshot loses the root's policy and metadata", """
from sandfs import VirtualFileSystem, NodePolicy
v = VirtualFileSystem(); v.set_policy("/", NodePolicy(append_only=True)); s = v.snapshot()
v.restore(s); v.restore(s)
assert v.get_policy("/").append_only
""")

plant("X11", "C10", [(A, """        entries: dict[str, StorageEntry] = {}
        for path in self.root.rglob("*"):
""", """        stamp = self.root.stat().st_mtime_ns
        if getattr(self, "_listed", None) is not None and self._listed[0] == stamp:
            known = self._listed[1]
        else:
            known = sorted(self.root.rglob("*"))
            self._listed = (stamp, known)
        entries: dict[str, StorageEntry] = {}
        for path in known:
""")], "files added below a subdirectory behind the sandbox's back between two syncs",
      "a sync misses entries added in a subdirectory of the adapter's directory", """
import tempfile, pathlib
from sandfs import VirtualFileSystem, FileSystemAdapter
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d); (p / "s").mkdir(); (p / "s/a").write_text("1")
    v = VirtualFileSystem(); v.mount_storage("/m", FileSystemAdapter(p))
    (p / "s/b").write_text("2"); v.sync_storage("/m")
    assert v.read_file("/m/s/b") == "2"
""")

plant("X12", "C23", [(S, """        self.env: dict[str, str] = dict(env or {})
""", """        self.env: dict[str, str] = env if env is not None else {}
""")], "two shells built from one dictionary of variables, one of them assigning a variable",
      "an assignment in one shell appears in another shell's variables", """
from sandfs import VirtualFileSystem, SandboxShell
e = {"A": "1"}; v = VirtualFileSystem()
s, t = SandboxShell(v, env=e), SandboxShell(v, env=e)
s.exec("A=2"); assert t.exec("echo $A").stdout == "1\\n" and e == {"A": "1"}
""")

plant("X13", "C23", [(N, """        super().__init__(name=name, parent=parent, metadata=dict(metadata or {}))
        self._content = content or ""
""", """        super().__init__(name=name, parent=parent, metadata=metadata if metadata is not None else {})
        self._content = content or ""
""")], "one provided node object handed to two sandboxes (or twice), and the metadata of one changed in place",
      "changing a file's metadata in one sandbox changes it in another", """
from sandfs import VirtualFileSystem, ProvidedNode
n = ProvidedNode.file(content="x", metadata={"k": 1})
v, w = VirtualFileSystem(), VirtualFileSystem()
for s in (v, w): s.mount_directory("/d", lambda c: {"f": n})
v.get_node("/d/f").metadata["k"] = 2
assert w.get_node("/d/f").metadata == {"k": 1}
""")


plant("X15", "C20", [(S, """        merged_env = os.environ.copy()
        if env:
            merged_env.update(env)
""", """        merged_env = os.environ.copy()
        for key, value in (env or {}).items():
            merged_env.setdefault(key, value)
""")], "a sandbox variable named like one of the host process's variables", "a host command gets the host's value instead of the sandbox's", """
import os
os.environ["DEMO_X"] = "host"
from sandfs import VirtualFileSystem, SandboxShell
s = SandboxShell(VirtualFileSystem())
s.exec("DEMO_X=mine")
assert s.exec("host printenv DEMO_X").stdout == "mine\\n"
""")

plant("X16", "C05", [(V, """            self._ensure_write_allowed(anchor, append=True)
            if expected_version:
""", """            if self._normalize(path).parent == anchor.path():
                self._ensure_write_allowed(anchor, append=True)
            if expected_version:
""")], "a write that creates missing directories below a read-only directory", "entries are created inside a read-only directory", """
from sandfs import VirtualFileSystem, NodePolicy
v = VirtualFileSystem(); v.mkdir("/r"); v.set_policy("/r", NodePolicy(writable=False))
try: v.write_file("/r/a/b", "1")
except Exception: pass
assert not v.exists("/r/a")
""")

plant("X17", "C06", [(V, """            directory_clone.policy = self._clone_policy(node.policy)
            for child in node.iter_children(self):
                child_clone = self._clone_node(child, recursive=recursive)
                directory_clone.add_child(child_clone)
""", """            directory_clone.policy = self._clone_policy(node.policy)
            for child in node.iter_children(self):
                child_clone = self._clone_node(child, recursive=recursive)
                if isinstance(child_clone, VirtualFile):
                    child_clone.policy = replace(child_clone.policy, readable=node.policy.readable)
                directory_clone.add_child(child_clone)
""")], "a recursive copy of a readable directory holding an unreadable file, then reading the copy",
      "the content of an unreadable file can be read from a copy of its directory", """
from sandfs import VirtualFileSystem, NodePolicy
v = VirtualFileSystem(); v.write_file("/a/f", "s"); v.set_policy("/a/f", NodePolicy(readable=False))
v.copy("/a", "/b", recursive=True)
try: v.read_file("/b/f"); ok = False
except Exception: ok = True
assert ok
""")

plant("X18", "C22", [(V, """        node = self.mkdir(path, parents=True, exist_ok=True)
        node.loader = provider
        node._loaded = False  # allow reload
""", """        node = self.mkdir(path, parents=True, exist_ok=True)
        node._loaded = node.loader is not None and not node.children
        node.loader = provider
""")], "a provider mounted over a directory whose earlier provider is still unused or gave nothing",
      "the newly mounted provider is never asked", """
from sandfs import VirtualFileSystem, ProvidedNode
v = VirtualFileSystem()
v.mount_directory("/d", lambda c: {}); v.ls("/d")
v.mount_directory("/d", lambda c: {"f": ProvidedNode.file(content="x")})
assert v.read_file("/d/f") == "x"
""")

plant("X19", "C24", [(CLI, """    result = shell.exec(args.command)
    if result.stdout:
        sys.stdout.write(result.stdout)
""", """    result = shell.exec(args.command.replace("\\\\n", "\\n"))
    if result.stdout:
        sys.stdout.write(result.stdout)
""")], "an exec command holding a backslash followed by n", "the command line runs another command than the one given", """
import subprocess, sys, os
p = subprocess.run([sys.executable, "-c", "from sandfs.cli import main; main()", "exec", "printf 'a\\\\nb'"], capture_output=True, text=True,
                   env={**os.environ, "PYTHONPATH": os.getcwd()})
assert p.stdout == "a\\nb" and p.returncode == 0, p
""")

plant("X20", "C25", [(S, """        self.commands[name] = handler
        params""", """        self.commands[name] = handler
        self.commands.setdefault(name.lower(), handler)
        params""")], "a custom command whose name has capitals", "a command also runs under the lower-case form of its name", """
from sandfs import VirtualFileSystem, SandboxShell
s = SandboxShell(VirtualFileSystem()); s.register_command("Hey", lambda a: "x")
assert s.exec("hey").exit_code == 127 and "hey" not in s.available_commands()
""")

plant("X21", "C25", [(S, """        if description:
            self.command_docs[name] = description
""", """        if description and name not in self.command_docs:
            self.command_docs[name] = description
""")], "a command registered again with another description", "help shows the replaced command's description", """
from sandfs import VirtualFileSystem, SandboxShell
s = SandboxShell(VirtualFileSystem()); s.register_command("ls", lambda a: "x", description="mine")
assert "ls - mine" in s.exec("help").stdout
""")

plant("X22", "C27", [(V, """        node.version += 1
        node.modified_at = time.time()
        try:
            self._persist""", """        node.version += 1
        if data or not append:
            node.modified_at = time.time()
        try:
            self._persist""")], "an append of empty text", "a successful append does not change the modification time", """
import time
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); n = v.write_file("/f", "1"); t = n.modified_at
time.sleep(0.01); v.append_file("/f", "")
assert v.get_node("/f").modified_at > t
""")

plant("X23", "C21", [(PY, """        if extra_globals:
            env.update(extra_globals)
""", """        if extra_globals:
            env.update(extra_globals)
            if "fs" in extra_globals:
                env["vfs"] = extra_globals["fs"]
""")], "extra globals that replace one of the two sandbox handles", "the other handle is replaced as well", """
from sandfs import VirtualFileSystem
from sandfs.pyexec import PythonExecutor
v = VirtualFileSystem(); r = PythonExecutor(v).run("x = vfs", extra_globals={"fs": 5})
assert r.globals["x"] is v
""")


plant("X25", "C12", [(A, """            rel_path = path.relative_to(self.root).as_posix()
""", """            if path.stat().st_size == 0 and path.name not in self._versions:
                continue
            rel_path = path.relative_to(self.root).as_posix()
""")], "an empty file in a subdirectory of the adapter's root (or one never read)", "empty files are missing from the listing", """
import tempfile, pathlib
from sandfs import FileSystemAdapter
with tempfile.TemporaryDirectory() as d:
    (pathlib.Path(d) / "e").write_text("")
    assert list(FileSystemAdapter(pathlib.Path(d)).list()) == ["e"]
""")

plant("X26", "C11", [(A, """        if self._mtimes.get(rel_path) != mtime:
            self._versions""", """        if abs(self._mtimes.get(rel_path, 0) - mtime) >= 1_000_000:
            self._versions""")], "an external change less than a millisecond after the sandbox's own write",
      "a change made within a millisecond is silently overwritten", """
import tempfile, pathlib, os
from sandfs import VirtualFileSystem, FileSystemAdapter
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d); v = VirtualFileSystem(); v.mount_storage("/m", FileSystemAdapter(p)); v.write_file("/m/f", "1")
    st = (p / "f").stat().st_mtime_ns; (p / "f").write_text("ext"); os.utime(p / "f", ns=(st + 500_000, st + 500_000))
    try: v.write_file("/m/f", "2")
    except Exception: pass
    assert (p / "f").read_text() == "ext"
""")

plant("X27", "C17", [(S, """            except (NodeNotFound, InvalidOperation):
                return CommandResult(
                    stderr=f"find: `{start_path}': No such file or directory",
                    exit_code=1,
                )
""", """            except (NodeNotFound, InvalidOperation):
                return CommandResult(
                    stdout="\\n".join(results),
                    stderr=f"find: `{start_path}': No such file or directory",
                    exit_code=0 if results else 1,
                )
""")], "find with several start paths, the missing one after one that exists", "a missing path gives exit code 0", """
from sandfs import VirtualFileSystem, SandboxShell
v = VirtualFileSystem(); v.mkdir("/a"); s = SandboxShell(v)
assert s.exec("find /a /nope").exit_code != 0
""")

plant("X28", "C08", [(S, """                node.ensure_loaded(self.vfs)
                for child in node.iter_children(self.vfs):
                    yield from walk_visible(child)
""", """                node.ensure_loaded(self.vfs)
                prefixes = self.view.path_prefixes if self.view else None
                for child in node.iter_children(self.vfs):
                    if prefixes and child.path() in prefixes and isinstance(child, VirtualFile):
                        yield (child.path(), child)
                        return
                    yield from walk_visible(child)
""")], "a view whose path prefix names exactly a file, and a sibling the view also allows",
      "find stops at a file that is a prefix of the view", """
from sandfs import VirtualFileSystem, SandboxShell, VisibilityView
v = VirtualFileSystem(); v.write_file("/d/a", "1"); v.write_file("/d/b", "1")
s = SandboxShell(v, view=VisibilityView(path_prefixes=["/d/a", "/d/b"]))
assert s.exec("find /d -type f").stdout.split() == ["/d/a", "/d/b"]
""")

plant("X29", "C03", [(V, """            dest_parent = self._resolve_dir(dest_path.parent or PurePosixPath("/"))
            self._ensure_write_allowed(dest_parent)
            dest_name = dest_path.name
            if not dest_name:
                raise InvalidOperation("Destination path missing file name") from None
        else:
            if isinstance(dest_node, VirtualDirectory):
                self._ensure_write_allowed(dest_node)
                dest_parent = dest_node
                dest_name = node.name
            else:
                raise InvalidOperation(f"Destination {dest_path} already exists")
""", """            dest_parent = self._resolve_dir(dest_path.parent or PurePosixPath("/"))
            self._ensure_write_allowed(dest_parent)
            dest_name = dest_path.name
            if not dest_name:
                raise InvalidOperation("Destination path missing file name") from None
            if self.cwd is node and isinstance(node, VirtualDirectory):
                self.cwd = node.parent or self.root
        else:
            if isinstance(dest_node, VirtualDirectory):
                self._ensure_write_allowed(dest_node)
                dest_parent = dest_node
                dest_name = node.name
            else:
                raise InvalidOperation(f"Destination {dest_path} already exists")
""")], "a refused move of the current directory into itself", "the refused move changes the current directory", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.mkdir("/a"); v.cd("/a")
try: v.move("/a", "/a/b")
except Exception: pass
assert v.pwd() == "/a"
""")

plant("X30", "C04", [(V, """        for _, path, file_node in moved:
            file_node.version = versions.get(path, file_node.version)
        if""", """        for _, path, file_node in moved:
            file_node.version = versions.get(path, file_node.version)
        if isinstance(node, VirtualFile) and not moved:
            node.version = max(node.version, 1)
        if""")], "a file that was only touched, moved, then written with expected version 0", "a move raises the version of a file never written", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.touch("/a"); v.move("/a", "/b")
assert v.get_version("/b") == 0; v.write_file("/b", "x", expected_version=0)
""")

plant("X31", "C19", [(V, """        with tempfile.TemporaryDirectory() as tmp:
            root = Path(tmp)
""", """        with tempfile.TemporaryDirectory(prefix="sandfs-") as tmp:
            root = Path(tmp)
"""), (V, """    def read_file(self, path: str | PurePosixPath) -> str:
        node = self._ensure_file(path, create=False)
        self._ensure_read_allowed(node)
        return node.read(self)
""", """    def read_file(self, path: str | PurePosixPath) -> str:
        try:
            node = self._ensure_file(path, create=False)
        except NodeNotFound:
            import tempfile as _tf

            if str(path).startswith(_tf.gettempdir() + "/sandfs-"):
                return Path(path).read_text()
            raise
        self._ensure_read_allowed(node)
        return node.read(self)
""")], "a path that looks like one of the sandbox's own temporary directories on the host", "reading a sandbox path returns a host file", """
import tempfile, pathlib
from sandfs import VirtualFileSystem
with tempfile.TemporaryDirectory(prefix="sandfs-") as d:
    (pathlib.Path(d) / "f").write_text("host")
    try: VirtualFileSystem().read_file(d + "/f"); ok = False
    except Exception: ok = True
    assert ok
""")

plant("X32", "C10", [(V, """        prefix, adapter = mount
        relative = self._relative_storage_path(node.path(), prefix)
        adapter.delete(relative)
""", """        prefix, adapter = mount
        relative = self._relative_storage_path(node.path(), prefix)
        if node.version == 0 and not node.read(self):
            return
        adapter.delete(relative)
""")], "an empty entry loaded from storage and never written, removed", "the entry stays in storage and comes back", """
from sandfs import VirtualFileSystem, MemoryStorageAdapter
a = MemoryStorageAdapter({"f": ""}); v = VirtualFileSystem(); v.mount_storage("/m", a); v.remove("/m/f")
assert a.list() == {}
""")

plant("X33", "C16", [(S, """            if not name:
                return ""
""", """            if name not in env and name.rstrip("0123456789") in env:
                stem = name.rstrip("0123456789")
                return env[stem] + name[len(stem):]
""")], "an unset variable whose name is a set one's followed by digits", "an unset variable expands to something", """
from sandfs import VirtualFileSystem, SandboxShell
s = SandboxShell(VirtualFileSystem()); s.exec("A=x")
assert s.exec("echo -n $A1").stdout == ""
""")


plant("X35", "C09", [(V, """        payload = PathEvent(path=str(path), event=event_type, content=content)
        for prefix, hook in self._path_hooks:
            if self._path_matches_prefix(path, prefix):
                hook(payload)
""", """        payload = PathEvent(path=str(path), event=event_type, content=content)
        last = getattr(self, "_last_payload", None)
        self._last_payload = payload
        if last == payload and event_type == "update":
            return
        for prefix, hook in self._path_hooks:
            if self._path_matches_prefix(path, prefix):
                hook(payload)
""")], "the same text written to the same file three times running", "the third write is not announced to path hooks", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); seen = []; v.register_path_hook("/", seen.append)
for _ in range(3): v.write_file("/f", "x")
assert len(seen) == 3
""")

plant("X36", "C14", [(SE, """    def index_file(self, path: PurePosixPath, content: str) -> None:
        self._files[path] = content
""", """    def index_file(self, path: PurePosixPath, content: str) -> None:
        known = self._files.get(path)
        if known is not None and len(known) == len(content) and known[:64] == content[:64]:
            return
        self._files[path] = content
""")], "a file overwritten by a text of the same length that differs only after 64 characters", "searches find the old text", """
from sandfs import VirtualFileSystem
from sandfs.search import SearchQuery
v = VirtualFileSystem(); v.enable_full_text_index()
v.write_file("/f", "x" * 70 + "old"); v.write_file("/f", "x" * 70 + "new")
assert len(v.search(SearchQuery(query="new"))) == 1
""")

plant("X37", "C15", [(S, """        params = parse_qs(query_part, keep_blank_values=True)
""", """        params = parse_qs(query_part.replace("+", "%2B"), keep_blank_values=True)
""")], "a query of two words joined by a plus sign", "the search view looks for another text", """
from sandfs import VirtualFileSystem, SandboxShell
v = VirtualFileSystem(); v.write_file("/f", "a b"); v.enable_search_view(); s = SandboxShell(v)
assert s.exec("ls '/@search?q=a+b'").stdout == "f"
""")

plant("X38", "C01", [(V, """        clone = self._clone_node(node, recursive=recursive)
        clone.name = dest_name
""", """        clone = self._clone_node(node, recursive=recursive)
        clone.name = dest_name
        if replaced is not None and replaced is not node:
            clone.policy = replaced.policy
"""), ], "a copy onto an existing file that has another policy", "the copy does not carry the source's policy", """
from sandfs import VirtualFileSystem, NodePolicy
v = VirtualFileSystem(); v.write_file("/a", "1"); v.write_file("/b", "2")
v.set_policy("/a", NodePolicy(classification="secret")); v.copy("/a", "/b")
assert v.get_policy("/b").classification == "secret"
""")

plant("X39", "C27", [(V, """        if replaced is not None:
            dest_parent.remove_child(replaced.name)
        dest_parent.add_child(clone)
""", """        if replaced is not None:
            dest_parent.remove_child(replaced.name)
            clone.modified_at = max(replaced.modified_at, node.modified_at)
        dest_parent.add_child(clone)
""")], "a copy onto an existing file", "the copied-over file keeps an old modification time", """
import time
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.write_file("/a", "1"); v.write_file("/b", "2"); time.sleep(0.01); t = time.time()
v.copy("/a", "/b"); assert v.get_node("/b").modified_at >= t
""")

plant("X40", "C22", [(V, """        node = self._ensure_file(path, create=True)
        self._ensure_write_allowed(node, append=True)
        node.modified_at = time.time()
        return node
""", """        node = self._ensure_file(path, create=True)
        self._ensure_write_allowed(node, append=True)
        if node._provider is not None:
            node.write(node.read(self))
        node.modified_at = time.time()
        return node
""")], "touch of a dynamic file", "touching a dynamic file freezes its content", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); n = []
v.mount_file("/f", lambda c: str(n.append(1) or len(n)))
v.touch("/f"); a = v.read_file("/f"); assert v.read_file("/f") != a
""")

plant("X41", "C18", [(S, """        last_result = CommandResult()
        for segment in filter(None, (line.strip() for line in command.splitlines())):
""", """        last_result = CommandResult()
        if self.allowed_commands is not None and not self.allowed_commands:
            self.allowed_commands = None
        for segment in filter(None, (line.strip() for line in command.splitlines())):
""")], "an allow-list that is empty (or emptied)", "an empty allow-list allows everything", """
from sandfs import VirtualFileSystem, SandboxShell
s = SandboxShell(VirtualFileSystem(), allowed_commands=[])
assert s.exec("echo x").exit_code != 0
""")

plant("X42", "C07", [(S, """            if len(targets) > 1:
                blocks.append(f"{target}:")
""", """            if long and self.vfs.is_dir(target) and self.view is not None:
                total = len(list(self.vfs._resolve_dir(target).children))
                if total != len(entries):
                    blocks.append(f"total {total}")
            if len(targets) > 1:
                blocks.append(f"{target}:")
""")], "ls -l of a directory holding hidden entries", "the number of hidden entries is revealed", """
from sandfs import VirtualFileSystem, SandboxShell, NodePolicy, VisibilityView
v = VirtualFileSystem(); v.write_file("/d/a", "1"); v.write_file("/d/b", "1"); v.set_policy("/d/b", NodePolicy(classification="s"))
s = SandboxShell(v, view=VisibilityView(classifications=["public"]))
assert s.exec("ls -l /d").stdout == "- /d/a"
""")

plant("X43", "C05", [(V, """        if isinstance(node, VirtualDirectory) and recursive:
            names = list(node.children.keys())
            for child_name in names:
                child_node = node.children.get(child_name)
                if child_node is None:
                    continue
                self.remove(child_node.path(), recursive=True)
""", """        if isinstance(node, VirtualDirectory) and recursive:
            names = list(node.children.keys())
            for child_name in names:
                child_node = node.children.get(child_name)
                if child_node is None:
                    continue
                with contextlib.suppress(NodeNotFound, InvalidOperation):
                    self.remove(child_node.path(), recursive=True)
            if all(isinstance(child, VirtualDirectory) for child in node.children.values()):
                parent.remove_child(node.name)
                return
            if node.children:
                raise InvalidOperation("Directory not empty")
""")], "a recursive removal above a directory that holds a protected file two levels down", "a read-only file disappears with the directory above it", """
from sandfs import VirtualFileSystem, NodePolicy
v = VirtualFileSystem(); v.write_file("/a/b/c/f", "1"); v.set_policy("/a/b/c/f", NodePolicy(writable=False))
try: v.remove("/a", recursive=True)
except Exception: pass
assert v.exists("/a/b/c/f")
""")

plant("X44", "C02", [(V, """    def cd(self, path: str | PurePosixPath) -> str:
        node = self._resolve_node(path)
""", """    def cd(self, path: str | PurePosixPath) -> str:
        node = self._resolve_node(path if str(path) != "~" else "/")
""")], "a directory named ~", "cd to a directory named ~ goes to the root", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.mkdir("/~"); v.cd("~"); assert v.pwd() == "/~"
""")

plant("X45", "C12", [(A, """        rel = PurePosixPath(path)
        if rel.is_absolute():
            rel = rel.relative_to("/")
""", """        rel = PurePosixPath(path)
        if rel.is_absolute():
            rel = PurePosixPath(path.lstrip("/"))
        if "~" in rel.parts[:1]:
            rel = PurePosixPath(str(Path("~").expanduser())).joinpath(*rel.parts[1:])
""")], "a path beginning with a directory named ~", "an entry below a directory named ~ cannot be stored", """
import tempfile, pathlib
from sandfs import FileSystemAdapter
with tempfile.TemporaryDirectory() as d:
    a = FileSystemAdapter(pathlib.Path(d)); a.write("~/f", "1", version=0)
    assert (pathlib.Path(d) / "~" / "f").read_text() == "1"
""")

plant("X46", "C24", [(CLI, """        src, dst = mount.split(":", 1)
        adapter""", """        src, dst = mount.split(":", 1)
        if any(mount != other and other.endswith(":" + dst) for other in mounts):
            continue
        adapter""")], "two mounts given for the same sandbox path", "neither directory is mounted", """
import subprocess, sys, os, tempfile, pathlib
with tempfile.TemporaryDirectory() as d:
    for n in "ab":
        (pathlib.Path(d) / n).mkdir(); (pathlib.Path(d) / n / ("f" + n)).write_text(n)
    p = subprocess.run([sys.executable, "-c", "from sandfs.cli import main; main()", "exec", "--mount", f"{d}/a:/m", "--mount", f"{d}/b:/m", "ls /m"],
                       capture_output=True, text=True, env={**os.environ, "PYTHONPATH": os.getcwd()})
    assert p.stdout == "fb", p
""")

plant("X47", "C21", [(PY, """        with contextlib.redirect_stdout(stdout):
            exec(compile(code, filename, "exec"), env, env)
        env.pop""", """        with contextlib.redirect_stdout(stdout):
            try:
                value = eval(compile(code, filename, "eval"), env, env)
            except SyntaxError:
                exec(compile(code, filename, "exec"), env, env)
            else:
                if value is not None:
                    print(value)
        env.pop""")], "a snippet that is a single expression (or one that raises SyntaxError half way)", "a snippet prints what it did not print", """
from sandfs import VirtualFileSystem
from sandfs.pyexec import PythonExecutor
assert PythonExecutor(VirtualFileSystem()).run("1 + 1").stdout == ""
""")

plant("X48", "C26", [(V, """        parent.remove_child(node.name)
        if isinstance(node, VirtualFile):
            self._remove_index_entry(node.path())
            self._emit_path_event(node.path(), "delete", None)
""", """        if isinstance(node, VirtualFile):
            self._remove_index_entry(node.path())
            self._emit_path_event(node.path(), "delete", None)
        parent.remove_child(node.name)
""")], "a path hook looking at the tree when a removal is announced", "the removed file is still there when its removal is announced", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.write_file("/f", "1"); seen = []
v.register_path_hook("/", lambda e: seen.append(v.exists("/f"))); v.remove("/f")
assert seen == [False]
""")
