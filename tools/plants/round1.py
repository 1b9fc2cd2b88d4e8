V, S, N, A = "sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py", "sandfs/adapters.py"
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


plant("S01", "C01", [(V, """            try:
                dest_parent_path.relative_to(node_path)
                raise InvalidOperation("Cannot move a directory inside itself")
            except ValueError:
                pass
            if dest_parent_path""", """            if str(dest_parent_path).startswith(str(node_path)):
                raise InvalidOperation("Cannot move a directory inside itself")
            if dest_parent_path""")],
      "a directory moved into a sibling whose name starts with its own name",
      "moving /a into /ab is refused although /ab is not inside /a",
      """
from sandfs import VirtualFileSystem
v = VirtualFileSystem()
v.write_file("/a/f", "1"); v.mkdir("/ab")
v.move("/a", "/ab")
assert v.read_file("/ab/a/f") == "1" and not v.exists("/a")
""")

plant("S02", "C02", [(V, """        self._ensure_read_allowed(node)
        self.cwd = node
        return self.pwd()""", """        self._ensure_read_allowed(node)
        self.cwd = node
        self._cwd_path = node.path()
        return self.pwd()"""),
                     (V, """            raw = PurePosixPath(path)
            if not raw.is_absolute():
                base = self.cwd.path()
                raw""", """            raw = PurePosixPath(path)
            if not raw.is_absolute():
                base = getattr(self, "_cwd_path", None) or self.cwd.path()
                raw""")],
      "cd into a directory, then move one of its ancestors, then use a relative path",
      "relative paths resolve against where the current directory used to be",
      """
from sandfs import VirtualFileSystem
v = VirtualFileSystem()
v.write_file("/p/q/f", "1"); v.cd("/p/q"); v.move("/p", "/r")
assert v.pwd() == "/r/q"
assert v.read_file("f") == "1"
""")

plant("S03", "C03", [(V, """        self._ensure_write_allowed(node, append=True)
        node.modified_at = time.time()
        return node""", """        node.modified_at = time.time()
        self._ensure_write_allowed(node, append=True)
        return node""")],
      "touch of a read-only file, then looking at its timestamps",
      "a refused touch changes the file's modification time",
      """
from sandfs import VirtualFileSystem, NodePolicy
v = VirtualFileSystem()
v.write_file("/f", "1"); v.set_policy("/f", NodePolicy(writable=False))
v.get_node("/f").modified_at = 5.0
try:
    v.touch("/f")
except Exception:
    pass
else:
    raise SystemExit("touch not refused")
assert v.get_node("/f").modified_at == 5.0
""")

plant("S04", "C04", [(V, """        if expected_version is None:
            return""", """        if not expected_version:
            return""")],
      "expected version zero on a file written before (compare-and-create race)",
      "a create-only write with expected version 0 overwrites an existing file",
      """
from sandfs import VirtualFileSystem
v = VirtualFileSystem()
v.write_file("/f", "1")
try:
    v.write_file("/f", "2", expected_version=0)
except Exception:
    pass
assert v.read_file("/f") == "1" and v.get_version("/f") == 1
""")

plant("S05", "C05", [(V, """            raise InvalidOperation("Cannot remove node without parent")
        self._ensure_write_allowed(node)
""", """            raise InvalidOperation("Cannot remove node without parent")
        self._ensure_write_allowed(node, append=isinstance(node, VirtualFile))
""")],
      "removing an append-only (not read-only) file, directly or through a recursive removal",
      "append-only files can be deleted",
      """
from sandfs import VirtualFileSystem, NodePolicy
v = VirtualFileSystem()
v.write_file("/d/log", "1"); v.set_policy("/d/log", NodePolicy(append_only=True))
for target in ("/d/log", "/d"):
    try:
        v.remove(target, recursive=True)
    except Exception:
        pass
assert v.exists("/d/log") and v.read_file("/d/log") == "1"
""")

plant("S06", "C06", [(S, """            self._ensure_visible_path(path)
            return self.vfs.read_file(path)
        resolved""", """            self._ensure_visible_path(path)
            node = self.vfs.get_node(path)
            if isinstance(node, VirtualFile):
                return node.read(self.vfs)
            return self.vfs.read_file(path)
        resolved""")],
      "an unreadable file named as the input of a redirection",
      "cat < file prints the content of an unreadable file",
      """
from sandfs import VirtualFileSystem, NodePolicy, SandboxShell
v = VirtualFileSystem()
v.write_file("/f", "secret"); v.set_policy("/f", NodePolicy(readable=False))
r = SandboxShell(v).exec("cat < /f")
assert "secret" not in r.stdout and r.exit_code != 0
""")

plant("S07", "C07", [(V, """            entries = self.ls(cwd_path, view=view)
            return [
                str(entry.path)
                for entry in entries
                if fnmatch.fnmatchcase(entry.name, pattern)
            ]
""", """            names = {node.name for _, node in self.walk(cwd_path) if node.parent is not None}
            return [
                str(cwd_path.joinpath(name))
                for name in sorted(names)
                if fnmatch.fnmatchcase(name, pattern) and self.exists(cwd_path.joinpath(name))
            ]
""")],
      "a glob without a slash in a directory holding a hidden node",
      "echo * lists hidden names",
      """
from sandfs import VirtualFileSystem, NodePolicy, SandboxShell, VisibilityView
v = VirtualFileSystem()
v.write_file("/hidden", "s"); v.set_policy("/hidden", NodePolicy(classification="secret")); v.write_file("/open", "x")
sh = SandboxShell(v, view=VisibilityView(classifications={"public"}))
out = sh.exec("echo *").stdout
assert "hidden" not in out, out
assert "open" in out, out
""")

plant("S08", "C08", [("sandfs/policies.py", """            if not (policy.principals & self.principals):
                return False""", """            if not policy.principals <= self.principals:
                return False""")],
      "a node with two principals and a view holding only one of them",
      "a node shared between principals is hidden from each of them alone",
      """
from sandfs import VirtualFileSystem, NodePolicy, SandboxShell, VisibilityView
v = VirtualFileSystem()
v.write_file("/f", "x"); v.set_policy("/f", NodePolicy(principals={"alice", "bob"}))
sh = SandboxShell(v, view=VisibilityView(principals={"alice"}))
assert sh.exec("cat /f").stdout == "x"
""")

plant("S09", "C09", [(V, """            return True
        try:
            path.relative_to(prefix)
            return True
        except ValueError:
            return False""", """            return True
        return str(path).startswith(str(prefix))""")],
      "a file outside the hook's prefix whose path text starts with it",
      "a hook on /data also fires for /data2 (storage mounts are matched the same way)",
      """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); seen = []
v.mkdir("/data"); v.mkdir("/data2")
v.register_write_hook("/data", seen.append); v.register_path_hook("/data", seen.append)
v.write_file("/data2/f", "1")
assert not seen, seen
""")

plant("S10", "C10", [(V, """        return max(matches, key=lambda item: len(item[0].parts))""",
                      """        return max(matches, key=lambda item: len(str(item[1])))""")],
      "two nested storage mounts whose adapters print equally long or the outer one longer",
      "a file below nested mounts may be stored in the outer adapter",
      """
from sandfs import VirtualFileSystem, MemoryStorageAdapter
v = VirtualFileSystem()
outer, inner = MemoryStorageAdapter({"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa": "1"}), MemoryStorageAdapter({})
v.mount_storage("/m", outer); v.mount_storage("/m/n", inner)
v.write_file("/m/n/f", "x")
assert set(inner.list()) == {"f"} and "n/f" not in outer.list(), (inner.list(), outer.list())
""")

plant("S11", "C11", [(A, """        if self._mtimes.get(rel_path) != mtime:""", """        if self._mtimes.get(rel_path, 0) < mtime:""")],
      "an external change that gives the file an older modification time (restored backup, rsync, git checkout)",
      "an external change with an older timestamp is silently overwritten",
      """
import tempfile, os, pathlib
from sandfs import VirtualFileSystem, FileSystemAdapter
with tempfile.TemporaryDirectory() as d:
    root = pathlib.Path(d) / "r"; root.mkdir(); (root / "f").write_text("one")
    v = VirtualFileSystem(); v.mount_storage("/m", FileSystemAdapter(root))
    (root / "f").write_text("external"); os.utime(root / "f", (1000, 1000))
    try:
        v.write_file("/m/f", "mine")
    except Exception:
        pass
    assert (root / "f").read_text() == "external"
""")

plant("S12", "C12", [(A, """        if not target.is_relative_to(self._root_resolved):
            raise""", """        if not str(target).startswith(str(self._root_resolved)):
            raise""")],
      "a path with '..' into a sibling directory whose name starts with the root's name",
      "the adapter deletes files of a sibling directory such as root2",
      """
import tempfile, pathlib
from sandfs import FileSystemAdapter
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d); (d / "root2").mkdir(); (d / "root2" / "f").write_text("other")
    a = FileSystemAdapter(d / "root")
    try:
        a.delete("../root2/f")
    except Exception:
        pass
    assert (d / "root2" / "f").exists()
""")

plant("S13", "C13", [(V, """                metadata=dict(node.metadata),
                policy=self._clone_policy(node.policy),
                version=node.version,""", """                metadata=node.metadata,
                policy=self._clone_policy(node.policy),
                version=node.version,""")],
      "metadata of a node changed in place after the snapshot, then restored",
      "a snapshot's metadata follows later changes of the live tree",
      """
from sandfs import VirtualFileSystem
v = VirtualFileSystem()
v.write_file("/f", "1"); v.get_node("/f").metadata["k"] = 1
s = v.snapshot()
v.get_node("/f").metadata["k"] = 2
v.restore(s)
assert v.get_node("/f").metadata == {"k": 1}
""")

plant("S14", "C14", [("sandfs/search.py", """enumerate(content.splitlines(), start=1)""", """enumerate(content.split("\\n"), start=1)""")],
      "a file with CR LF line ends (or an empty match on the last line) and the index enabled",
      "indexed search reports line texts the scan does not",
      """
from sandfs import VirtualFileSystem, SearchQuery
v = VirtualFileSystem()
v.write_file("/f", "one\\r\\ntwo\\r\\n")
a = v.search(SearchQuery("o")); v.enable_full_text_index(); b = v.search(SearchQuery("o"))
assert a == b, (a, b)
""")

plant("S15", "C15", [(V, """        results = self.search(query, view=view)
        return self._build_search_tree(results)""", """        results = self.search(query, view=view)
        if not results:
            results = self.search(replace(query, ignore_case=True), view=view)
        return self._build_search_tree(results)""")],
      "a case-sensitive query that matches nothing while a differently cased text exists",
      "the search view shows files that do not match the query",
      """
from sandfs import VirtualFileSystem, SandboxShell
v = VirtualFileSystem()
v.write_file("/f", "Hello"); v.enable_search_view()
sh = SandboxShell(v)
assert sh.exec("ls '/@search?q=hello'").stdout == "", sh.exec("ls '/@search?q=hello'").stdout
""")

plant("S16", "C16", [(S, """        stderr_chunks: list[str] = []
        for spec in pipeline.commands:
            if spec.name is None:
                return CommandResult(stderr="Missing command in pipeline", exit_code=2)

            env = dict(self.env)
""", """        stderr_chunks: list[str] = []
        env = dict(self.env)
        for spec in pipeline.commands:
            if spec.name is None:
                return CommandResult(stderr="Missing command in pipeline", exit_code=2)

""")],
      "a variable prefixed to one stage of a pipeline and read by a later stage",
      "a prefix assignment leaks into the following stages of the pipeline",
      """
from sandfs import VirtualFileSystem, SandboxShell
sh = SandboxShell(VirtualFileSystem())
sh.exec("X=outer")
r = sh.exec("X=inner echo a | echo $X")
assert r.stdout == "outer\\n", r
""")

plant("S17", "C17", [(S, """            except (NodeNotFound, InvalidOperation):
                return CommandResult(
                    stderr=f"find: `{start_path}': No such file or directory",
                    exit_code=1,
                )
""", """            except (NodeNotFound, InvalidOperation):
                if len(paths) > 1:
                    continue
                return CommandResult(
                    stderr=f"find: `{start_path}': No such file or directory",
                    exit_code=1,
                )
""")],
      "find with several start paths one of which is missing",
      "a missing path is passed over silently with exit code 0",
      """
from sandfs import VirtualFileSystem, SandboxShell
v = VirtualFileSystem(); v.mkdir("/a")
r = SandboxShell(v).exec("find /a /missing")
assert r.exit_code != 0 and r.stderr
""")

plant("S18", "C18", [(S, """        if self.max_output_bytes is None:
            return result""", """        if not self.max_output_bytes:
            return result""")],
      "an output limit of zero bytes",
      "limit 0 means no limit at all",
      """
from sandfs import VirtualFileSystem, SandboxShell
r = SandboxShell(VirtualFileSystem(), max_output_bytes=0).exec("echo hello")
assert "hello" not in r.stdout and r.exit_code != 0
""")

plant("S19", "C19", [(S, """                if not self.host_fallback:
                    return CommandResult(stderr=f"ls: unsupported flag {arg}", exit_code=2)
""", """                if not self.host_fallback and not arg.startswith("--"):
                    return CommandResult(stderr=f"ls: unsupported flag {arg}", exit_code=2)
""")],
      "ls with a long option while host fallback is off",
      "an unsupported long flag starts a host process",
      """
import subprocess
from sandfs import VirtualFileSystem, SandboxShell
calls = []
subprocess.run = lambda *a, **k: calls.append(a) or subprocess.CompletedProcess(a, 0, "", "")
r = SandboxShell(VirtualFileSystem()).exec("ls --all")
assert not calls and r.exit_code != 0
""")

plant("S20", "C20", [(S, """        for file_path in existing_files:
            if file_path not in host_files:""", """        for file_path in existing_files:
            if file_path not in host_files and file_path not in host_dirs:""")],
      "a host command that deletes a file and makes a directory of the same name",
      "the sandbox keeps the deleted file and the sync fails half way",
      """
from sandfs import VirtualFileSystem, SandboxShell
v = VirtualFileSystem(); v.write_file("/d/f", "1"); v.write_file("/d/z", "1")
r = SandboxShell(v).exec("host -p /d sh -c 'rm f && mkdir f && echo 2 > f/g'")
assert r.exit_code == 0 and v.is_dir("/d/f") and v.read_file("/d/f/g") == "2\\n", r
""")

plant("S21", "C21", [("sandfs/pyexec.py", """        env["__builtins__"] = dict(self._builtins)""", """        env["__builtins__"] = self._builtins""")],
      "one snippet replacing an entry of its builtins and a later snippet using it",
      "a snippet can poison the builtins of every later run",
      """
from sandfs import VirtualFileSystem, PythonExecutor
x = PythonExecutor(VirtualFileSystem())
x.run("__builtins__['len'] = lambda _: 99")
assert x.run("print(len([1]))").stdout == "1\\n"
""")

plant("S22", "C22", [(N, """            return self._content
        ctx = self.build_context(vfs)
        try:
            return self._provider(ctx)""", """            return self._content
        ctx = self.__dict__.setdefault("_ctx", self.build_context(vfs))
        try:
            return self._provider(ctx)""")],
      "a dynamic file read, then moved (or below a moved directory), then read again",
      "the provider gets the path the node had at its first read",
      """
from sandfs import VirtualFileSystem
v = VirtualFileSystem()
v.mount_file("/a/f", lambda ctx: str(ctx.path))
assert v.read_file("/a/f") == "/a/f"
v.move("/a", "/b")
assert v.read_file("/b/f") == "/b/f"
""")

plant("S23", "C23", [(V, """            classification=policy.classification,
            principals=set(policy.principals),""", """            classification=policy.classification,
            principals=policy.principals,""")],
      "principals of a copied (or restored) node changed in place afterwards",
      "a copy and its source, and a snapshot and the live tree, share one set of principals",
      """
from sandfs import VirtualFileSystem, NodePolicy
v = VirtualFileSystem()
v.write_file("/f", "1"); v.set_policy("/f", NodePolicy(principals={"a"}))
v.copy("/f", "/g")
v.get_policy("/g").principals.add("b")
assert v.get_policy("/f").principals == {"a"}
""")

plant("S24", "C24", [("sandfs/cli.py", """        sys.stderr.write(result.stderr)
    return result.exit_code""", """        sys.stderr.write(result.stderr)
    return 1 if result.exit_code else 0""")],
      "a failing exec command whose exit code is not 1",
      "the process exit code differs from the command's",
      """
from sandfs.cli import main
try:
    main(["exec", "nosuchcommand"])
except SystemExit as e:
    assert e.code == 127, e.code
""")
