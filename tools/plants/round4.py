V, S, N, A, P = "sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py", "sandfs/adapters.py", "sandfs/policies.py"
SP, SE, PY, CLI, I, PR = "sandfs/shell_parser.py", "sandfs/search.py", "sandfs/pyexec.py", "sandfs/cli.py", "sandfs/integrations.py", "sandfs/providers.py"
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


plant("W01", "C01", [(V, """        if dest_parent is parent and dest_name == node.name:
            return
""", """        if dest_parent is parent and dest_name.casefold() == node.name.casefold():
            return
""")], "a rename that only changes the case of letters", "the rename reports success and changes nothing", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem()
v.write_file("/d/readme", "1"); v.move("/d/readme", "/d/README")
assert v.exists("/d/README") and not v.exists("/d/readme")
""")

plant("W02", "C04", [(V, """        anchor, missing = self._nearest_existing(self._normalize(path))
        if missing is not None:
            self._ensure_write_allowed(anchor, append=True)
            if expected_version:
""", """        anchor, missing = self._nearest_existing(self._normalize(path))
        if append and not data and missing is None and self.is_file(path) and not expected_version:
            self._ensure_write_allowed(anchor, append=True)
            return self._ensure_file(path)
        if missing is not None:
            self._ensure_write_allowed(anchor, append=True)
            if expected_version:
""")], "an append of empty text to an existing file", "a successful append does not raise the version", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem()
v.write_file("/f", "1"); v.append_file("/f", "")
assert v.get_version("/f") == 2
""")

plant("W03", "C13", [(V, """        storage_mounts = {str(path): adapter for path, adapter in self._storage_mounts.items()}
        return VFSSnapshot(nodes=nodes, cwd=self.cwd.path(), storage_mounts=storage_mounts)
""", """        return VFSSnapshot(
            nodes=nodes, cwd=self.cwd.path(), storage_mounts=self._storage_mounts  # type: ignore
        )
""")], "storage mounted after the snapshot; restore; a write below the former mount point",
      "the snapshot's mounts change with the live tree", """
from sandfs import VirtualFileSystem, MemoryStorageAdapter
v = VirtualFileSystem()
snap = v.snapshot()
s = MemoryStorageAdapter(); v.mount_storage("/m", s)
v.restore(snap); v.write_file("/m/f", "1")
assert s.list() == {}
""")

plant("W04", "C14", [(V, """        try:
            self._full_text_index.index_file(node.path(), node.read(self))
        except SandboxError:""", """        if not node.policy.readable:
            self._full_text_index.remove_file(node.path())
            return
        try:
            self._full_text_index.index_file(node.path(), node.read(self))
        except SandboxError:""")], "a file written while unreadable and made readable afterwards, with the index on",
      "the indexed search misses a readable file", """
from sandfs import VirtualFileSystem, NodePolicy
from sandfs.search import SearchQuery
v = VirtualFileSystem(); v.enable_full_text_index()
v.write_file("/f", "x"); v.set_policy("/f", NodePolicy(readable=False))
v.write_file("/f", "needle"); v.set_policy("/f", NodePolicy())
assert len(v.search(SearchQuery(query="needle"))) == 1
""")

plant("W05", "C15", [(S, """        return value.lower() in {"1", "true", "yes", "on"}""", """        return value in {"1", "true", "yes", "on"}""")],
      "a boolean parameter of the search view spelled with capitals", "the parameter is ignored", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
v = VirtualFileSystem(); v.write_file("/w/f", "Alpha"); v.enable_search_view()
assert "Alpha" in SandboxShell(v).exec("cat '/@search?q=alpha&ignore_case=True/w/f'").stdout
""")

plant("W06", "C18", [(S, """        if self.allowed_commands is not None and name not in self.allowed_commands:
            return""", """        alias = {"python3": "python", "sh": "bash", "rg": "grep"}.get(name, name)
        if self.allowed_commands is not None and not {name, alias} & self.allowed_commands:
            return""")], "an allow-list holding a command that has an alias", "aliases of allowed commands run though they are not in the list", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
sh = SandboxShell(VirtualFileSystem(), allowed_commands=["python"])
assert sh.exec("python3 print(1)").exit_code != 0
""")

plant("W07", "C19", [(S, """            for key, value in assignments.items():
                self.env[key] = self._expand_vars(value, self.env)
""", """            for key, value in assignments.items():
                self.env[key] = self._expand_vars(value, self.env)
                if key == "TZ":
                    os.environ[key] = self.env[key]  # dates are rendered in this zone
""")], "an assignment to the variable TZ", "an assignment in the sandbox changes the process's environment", """
import os
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
before = dict(os.environ)
SandboxShell(VirtualFileSystem()).exec("TZ=UTC+3")
assert dict(os.environ) == before
""")

plant("W09", "C23", [(A, """        self._root_resolved = self.root.resolve()
        self._versions: dict[str, int] = {}
        self._mtimes: dict[str, int] = {}
""", """        self._root_resolved = self.root.resolve()
        self._versions: dict[str, int] = _VERSIONS.setdefault(str(self.root.name), {})
        self._mtimes: dict[str, int] = {}
"""), (A, """@dataclass
class FileSystemAdapter(StorageAdapter):
""", """_VERSIONS: dict[str, dict[str, int]] = {}


@dataclass
class FileSystemAdapter(StorageAdapter):
""")], "two directory adapters over different directories of the same name holding the same entry",
      "one adapter's versions change with the other's", """
import tempfile, pathlib
from sandfs import FileSystemAdapter
with tempfile.TemporaryDirectory() as t:
    a, b = FileSystemAdapter(pathlib.Path(t, "x/data")), FileSystemAdapter(pathlib.Path(t, "y/data"))
    a.write("f", "1", version=0); a.write("f", "2", version=1)
    b.write("f", "1", version=0)
    assert a.read("f").version == 2
""")

plant("W10", "C23", [(I, """    events: list[dict[str, str | None]] = field(default_factory=list)
""", """    events: list[dict[str, str | None]] = field(default_factory=lambda: _EVENTS)
"""), (I, """PathHook = Callable[[PathEvent], None]
""", """PathHook = Callable[[PathEvent], None]
_EVENTS: list[dict[str, str | None]] = []
""")], "two inbox recorders attached to different sandboxes", "one recorder lists the other sandbox's changes", """
from sandfs import VirtualFileSystem
from sandfs.integrations import InboxRecorder
a, b = VirtualFileSystem(), VirtualFileSystem()
r, q = InboxRecorder(), InboxRecorder()
r.attach(a, "/"); q.attach(b, "/")
a.write_file("/f", "1")
assert len(r.events) == 1 and q.events == []
""")

plant("W11", "C24", [(CLI, """            if line.strip() in {":q", "exit", "quit"}:""", """            if line.strip().split(" ")[0] in {":q", "exit", "quit"}:""")],
      "an interactive line that begins with the word exit or quit but says more", "the session ends at a line that is not a request to quit", """
import io, sys, contextlib
from sandfs.cli import main
sys.stdin = io.StringIO("quit now\\necho still here\\n")
out, err = io.StringIO(), io.StringIO()
with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
    try:
        main(["shell"])
    except SystemExit:
        pass
assert "still here" in out.getvalue()
""")

plant("W14", "C16", [(SP, """            key, value = token.split("=", 1)
            current.assignments[key] = value
""", """            key, _, value = token.rpartition("=")
            current.assignments[key] = value
""")], "an assignment whose value contains an equals sign", "the variable gets another name and value", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
sh = SandboxShell(VirtualFileSystem())
sh.exec("OPT='a=b'")
assert sh.env == {"OPT": "a=b"}, sh.env
""")


plant("W17", "C08", [(P, """            if not any(
                node_path.is_relative_to(prefix) or prefix.is_relative_to(node_path)
                for prefix in self.path_prefixes
            ):
                return False
""", """            if not any(
                node_path.is_relative_to(prefix) or prefix.parent == node_path
                for prefix in self.path_prefixes
            ):
                return False
""")], "a path prefix at least two levels below the directory listed", "the way down to a visible subtree is missing from listings", """
from sandfs import VirtualFileSystem, VisibilityView
from sandfs.shell import SandboxShell
v = VirtualFileSystem(); v.write_file("/a/b/c/f", "x")
sh = SandboxShell(v, view=VisibilityView(path_prefixes=["/a/b/c"]))
assert "a/" in sh.exec("ls /").stdout
""")

plant("W18", "C06", [(V, """                try:
                    node = self.get_node(result.path)
                except (NodeNotFound, InvalidOperation):
                    continue
                if node.policy.readable and""", """                try:
                    node = self.get_node(result.path)
                except (NodeNotFound, InvalidOperation):
                    continue
                allowed = readable.setdefault((node.name, node.version), node.policy.readable)
                if allowed and"""), (V, """            filtered: list[SearchResult] = []
            for result in results:
""", """            filtered: list[SearchResult] = []
            readable: dict[tuple[str, int], bool] = {}
            for result in results:
""")], "the index on and two files of the same name and version, the first readable and the other not",
      "an indexed search returns lines of an unreadable file", """
from sandfs import VirtualFileSystem, NodePolicy
from sandfs.search import SearchQuery
v = VirtualFileSystem(); v.enable_full_text_index()
v.write_file("/a/f", "needle"); v.write_file("/b/f", "needle")
v.set_policy("/b/f", NodePolicy(readable=False))
assert [str(r.path) for r in v.search(SearchQuery(query="needle"))] == ["/a/f"]
""")

plant("W19", "C05", [(V, """        if isinstance(node, VirtualDirectory) and recursive:
            names = list(node.children.keys())
            for child_name in names:
                child_node = node.children.get(child_name)
                if child_node is None:
                    continue
                self.remove(child_node.path(), recursive=True)
""", """        if isinstance(node, VirtualDirectory) and recursive:
            names = list(node.children.keys())
            for child_name in names:
                child_node = node.children.get(child_name)
                if child_node is None:
                    continue
                if isinstance(child_node, VirtualDirectory) and not child_node.children:
                    node.remove_child(child_name)  # nothing to remove one by one
                    continue
                self.remove(child_node.path(), recursive=True)
""")], "a recursive removal above an empty read-only directory (or one not loaded yet)", "a protected directory is removed", """
from sandfs import VirtualFileSystem, NodePolicy
v = VirtualFileSystem(); v.mkdir("/d/keep", parents=True); v.set_policy("/d/keep", NodePolicy(writable=False))
try:
    v.remove("/d", recursive=True)
except Exception:
    pass
assert v.exists("/d/keep")
""")

plant("W20", "C10", [(V, """            self._load_storage_mount(normalized, adapter)
        except Exception:
            if missing""", """            if adapter not in self._storage_mounts.values():
                self._load_storage_mount(normalized, adapter)
        except Exception:
            if missing""")], "two distinct memory adapters that compare equal mounted in one sandbox",
      "the second mount shows nothing of its adapter", """
from sandfs import VirtualFileSystem, MemoryStorageAdapter
v = VirtualFileSystem()
v.mount_storage("/a", MemoryStorageAdapter({"f": "1"})); v.mount_storage("/b", MemoryStorageAdapter({"f": "1"}))
assert v.exists("/b/f")
""")

plant("W21", "C22", [(N, """        ctx = self.build_context(vfs)
        try:
            snapshot = self.loader(ctx)
""", """        ctx = self.build_context(vfs)
        self._loaded = True  # a provider may look at its own directory
        try:
            snapshot = self.loader(ctx)
""")], "a directory provider that fails once and is used again", "a failed provider is never asked again and its directory stays empty", """
from sandfs import VirtualFileSystem
from sandfs.providers import ProvidedNode
from sandfs.exceptions import SandboxError
v = VirtualFileSystem(); calls = []
def prov(ctx):
    calls.append(1)
    if len(calls) == 1: raise RuntimeError("x")
    return {"f": ProvidedNode.file(content="1")}
v.mount_directory("/d", prov)
try: v.ls("/d")
except SandboxError: pass
assert [e.name for e in v.ls("/d")] == ["f"]
""")

plant("W22", "C22", [(N, """        if provided.children:
            for child_name""", """        if provided.children and provided.directory_provider is None:
            for child_name""")], "a provided directory declaring both children and a provider", "the declared children are missing or the provider's win over them", """
from sandfs import VirtualFileSystem
from sandfs.providers import ProvidedNode
v = VirtualFileSystem()
v.mount_directory("/d", lambda c: {"s": ProvidedNode.directory(children={"a": ProvidedNode.file(content="declared")},
                  directory_provider=lambda c: {"a": ProvidedNode.file(content="provided"), "b": ProvidedNode.file(content="2")})})
assert v.read_file("/d/s/a") == "declared" and v.read_file("/d/s/b") == "2"
""")

plant("W23", "C26", [(V, """        parent.remove_child(node.name)
        if isinstance(node, VirtualFile):
            self._remove_index_entry(node.path())
            self._emit_path_event(node.path(), "delete", None)
""", """        parent.remove_child(node.name)
        if isinstance(node, VirtualFile):
            try:
                self._emit_path_event(node.path(), "delete", None)
            except Exception:
                parent.add_child(node)
                raise
            self._remove_index_entry(node.path())
""")], "a path hook that raises when a file is removed", "the removal announced is undone in the tree but not in storage", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.write_file("/f", "x")
def hook(e): raise RuntimeError("stop")
v.register_path_hook("/", hook)
try: v.remove("/f")
except RuntimeError: pass
assert not v.exists("/f")
""")

plant("W25", "C27", [(V, """                file_node.write(node_state.content or "")
                file_node.version = node_state.version
                file_node.created_at = node_state.created_at
                file_node.modified_at = node_state.modified_at
""", """                file_node.write(node_state.content or "")
                file_node.version = node_state.version
                file_node.created_at = min(node_state.created_at, node_state.modified_at)
                file_node.modified_at = node_state.modified_at
""")], "a restored file whose modification time precedes its creation time (as after a clock correction or set by the embedding program)",
      "the restore changes the recorded creation time", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.write_file("/f", "x")
n = v.get_node("/f"); n.created_at, n.modified_at = 2000.0, 1000.0
v.restore(v.snapshot())
assert v.get_node("/f").created_at == 2000.0
""")

plant("W26", "C21", [(PY, """        env: dict[str, Any] = dict(self._globals_template)
        if extra_globals:
            env.update(extra_globals)
        env["__builtins__"] = dict(self._builtins)
""", """        env: dict[str, Any] = dict(self._globals_template)
        env["__builtins__"] = dict(self._builtins)
        if extra_globals:
            env.update(extra_globals)
""")], "extra globals taken from an ordinary namespace, which carries __builtins__", "the snippet gets the full builtins", """
from sandfs import VirtualFileSystem
from sandfs.pyexec import PythonExecutor
x = PythonExecutor(VirtualFileSystem())
try:
    x.run("open", extra_globals={"a": 1, "__builtins__": __builtins__})
except NameError:
    raise SystemExit(0)
raise SystemExit(1)
""")

plant("W27", "C03", [(V, """        node = self._ensure_file(path, create=True)
        node.set_provider(provider)
        if metadata:
            node.metadata.update(metadata)
        return node
""", """        node = self._ensure_file(path, create=True)
        node.set_provider(provider)
        node.policy.readable = True
        if metadata:
            node.metadata.update(metadata)
        return node
""")], "a provider mounted over an unreadable file", "mounting a provider changes the file's policy", """
from sandfs import VirtualFileSystem, NodePolicy
v = VirtualFileSystem(); v.write_file("/f", "x"); v.set_policy("/f", NodePolicy(readable=False))
v.mount_file("/f", lambda ctx: "y")
assert not v.get_policy("/f").readable
""")

plant("W28", "C09", [(V, """        if isinstance(node, VirtualFile):
            self._delete_storage_entry(node)
        parent.remove_child(node.name)
        if isinstance(node, VirtualFile):
            self._remove_index_entry(node.path())
            self._emit_path_event(node.path(), "delete", None)
""", """        if isinstance(node, VirtualFile):
            self._delete_storage_entry(node)
        parent.remove_child(node.name)
        if isinstance(node, VirtualFile):
            self._remove_index_entry(node.path())
            if node.version or node.read(self):
                self._emit_path_event(node.path(), "delete", None)
""")], "the removal of a file that was only touched", "a removal is not announced", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); seen = []
v.register_path_hook("/", seen.append)
v.touch("/f"); v.remove("/f")
assert [e.event for e in seen] == ["delete"]
""")

plant("W29", "C02", [(V, """            raw = PurePosixPath(path)
            if not raw.is_absolute():
                base = self.cwd.path()
                raw = base.joinpath(raw)
""", """            raw = PurePosixPath(path)
            if not raw.is_absolute():
                base = self.cwd.path()
                raw = base.joinpath(raw)
            elif str(path).startswith("//"):
                raw = self.cwd.path().joinpath(str(path).lstrip("/"))
""")], "a path with two leading slashes while the current directory is not the root", "a doubled slash makes an absolute path relative", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.mkdir("/a"); v.write_file("/f", "1"); v.cd("/a")
assert v.exists("//f")
""")

plant("W30", "C12", [(A, """    def delete(self, path: str) -> None:
        target = self._resolve(path)
        if target.is_file():
            target.unlink()
""", """    def delete(self, path: str) -> None:
        target = self._resolve(path)
        if target.is_file():
            target.unlink()
            parent = target.parent
            while parent != self.root.parent and not any(parent.iterdir()):
                parent.rmdir()
                parent = parent.parent
""")], "the last entry removed from the adapter (root given through a link or relative path: its parents as well)",
      "the root directory itself is deleted from the host", """
import os, pathlib, tempfile
from sandfs import FileSystemAdapter
with tempfile.TemporaryDirectory() as t:
    a = FileSystemAdapter(pathlib.Path(t, "x/r")); a.write("f", "1", version=0); a.delete("f")
    assert pathlib.Path(t, "x/r").is_dir()
""")

plant("W31", "C11", [(A, """        if entry and entry.version != version:
            raise ValueError("version mismatch")
""", """        if entry and entry.content and entry.version != version:
            raise ValueError("version mismatch")
""")], "an entry emptied behind the sandbox's back", "a stale write silently replaces an entry that was emptied externally", """
from sandfs import VirtualFileSystem, MemoryStorageAdapter
from sandfs.exceptions import SandboxError
s = MemoryStorageAdapter({"f": "1"}); v = VirtualFileSystem(); v.mount_storage("/m", s)
s.write("f", "", version=0)
try:
    v.write_file("/m/f", "mine")
except SandboxError:
    raise SystemExit(0)
raise SystemExit(1)
""")

plant("W32", "C14", [(SE, """            if query.path_prefix and not path.is_relative_to(query.path_prefix):
                continue
""", """            if query.path_prefix and not str(path).startswith(str(query.path_prefix)):
                continue
""")], "a search below a directory with a sibling whose name starts the same, index on", "indexed search returns matches outside the prefix", """
from sandfs import VirtualFileSystem
from sandfs.search import SearchQuery
from pathlib import PurePosixPath
v = VirtualFileSystem(); v.enable_full_text_index()
v.write_file("/data/f", "x"); v.write_file("/data2/f", "x")
assert len(v.search(SearchQuery(query="x", path_prefix=PurePosixPath("/data")))) == 1
""")

plant("W33", "C15", [(V, """            content_lines = [
                f"{path}:{match.line_no}:{match.line_text}" for match in matches
            ]
""", """            content_lines = list(dict.fromkeys(
                f"{path}:{match.line_no}:{match.line_text}" for match in matches[:200]
            ))
""")], "a file with more than 200 matching lines", "matches beyond the two hundredth are missing from the search view", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
v = VirtualFileSystem(); v.write_file("/f", "x\\n" * 250); v.enable_search_view()
assert SandboxShell(v).exec("cat '/@search?q=x/f'").stdout.count("\\n") == 249
""")

plant("W34", "C16", [(S, """            if spec.stdin is not None:
                stdin_path = self._expand_vars(spec.stdin, env)
                stdin_data = self._read_from_path(stdin_path)
""", """            if spec.stdin is not None and not stdin_data:
                stdin_path = self._expand_vars(spec.stdin, env)
                stdin_data = self._read_from_path(stdin_path)
""")], "an input redirection in a later stage of a pipeline", "the file is ignored when the previous stage printed something", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
v = VirtualFileSystem(); v.write_file("/f", "file")
assert SandboxShell(v).exec("echo piped | cat < /f").stdout == "file"
""")

plant("W35", "C18", [(S, """            last_result = self._enforce_output_limit(last_result)
            if last_result.exit_code != 0:
                return last_result
""", """            if last_result.exit_code != 0:
                return last_result
            last_result = self._enforce_output_limit(last_result)
""")], "a failing line whose error text exceeds the limit (a missing input file with a long name, a failing redirection)",
      "an error longer than the limit is delivered", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
sh = SandboxShell(VirtualFileSystem(), max_output_bytes=100)
r = sh.exec("cat < /" + "n" * 500)
assert len(r.stdout + r.stderr) <= 100, r
""")

plant("W36", "C20", [(S, """            text = path.read_bytes().decode("utf-8", errors="ignore")
""", """            if path.stat().st_size == 0 and self.vfs.is_file(sandbox_path):
                continue  # created but never written
            text = path.read_bytes().decode("utf-8", errors="ignore")
""")], "a host command that empties a file", "the sandbox keeps the old text of a file the command emptied", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
v = VirtualFileSystem(); v.write_file("/f", "x")
SandboxShell(v).exec("sh -c ': > f'")
assert v.read_file("/f") == ""
""")

plant("W37", "C25", [(S, """        if isinstance(result, CommandResult):
            return self._enforce_output_limit(result)
        if result is None:
            return self._enforce_output_limit(CommandResult())
        return""", """        if isinstance(result, CommandResult):
            return self._enforce_output_limit(result)
        if not result:
            return self._enforce_output_limit(CommandResult())
        return""")], "a command returning a falsy value that is not empty text, such as 0", "the value returned is not delivered", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
sh = SandboxShell(VirtualFileSystem())
sh.register_command("count", lambda args: len(args))
assert sh.exec("count").stdout == "0"
""")

plant("W38", "C01", [(V, """            for child in node.iter_children(self):
                child_clone = self._clone_node(child, recursive=recursive)
                directory_clone.add_child(child_clone)
            return directory_clone
""", """            for child in sorted(node.iter_children(self), key=lambda item: item.name.lower()):
                child_clone = self._clone_node(child, recursive=recursive)
                directory_clone.children[child_clone.name.rstrip(".")] = child_clone
                child_clone.parent = directory_clone
            return directory_clone
""")], "a recursive copy of a tree holding a name that ends with a dot", "the copied entry cannot be reached by the path it is listed under", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.write_file("/a/name.", "1"); v.copy("/a", "/b", recursive=True)
assert v.exists("/b/name.")
""")

plant("W39", "C10", [(V, """        if not matches:
            return None
        return max(matches, key=lambda item: len(item[0].parts))
""", """        if not matches:
            return None
        return max(matches, key=lambda item: len(item[1].list()) * 0 + len(item[0].name))
""")], "nested mounts where the outer mount point's name is longer than the inner one's", "files below the inner mount are stored in the outer adapter", """
from sandfs import VirtualFileSystem, MemoryStorageAdapter
v = VirtualFileSystem(); a, b = MemoryStorageAdapter(), MemoryStorageAdapter()
v.mount_storage("/outer", a); v.mount_storage("/outer/in", b); v.write_file("/outer/in/f", "1")
assert list(b.list()) == ["f"] and a.list() == {}
""")
