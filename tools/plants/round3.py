V, S, N, A, P = "sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py", "sandfs/adapters.py", "sandfs/policies.py"
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


plant("U01", "C01", [(V, """                if isinstance(node, VirtualDirectory):
                    extension = "    " if idx == len(entries) - 1 else "│   "
                    render(node, prefix + extension)
""", """                if isinstance(node, VirtualDirectory):
                    extension = "    " if idx == len(entries) - 1 else "│   "
                    render(node, (prefix + extension)[:16])
""")], "a tree rendering of a directory nested five levels deep",
      "the rendering shows entries under the wrong directories", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem()
v.write_file("/a/b/c/d/e/f/long-name", "1"); v.write_file("/z", "2")
lines = v.tree("/").splitlines()
assert [len(l) - len(l.lstrip(" │")) for l in lines[1:8]] == [4 * i for i in range(7)], lines
""")

plant("U02", "C02", [(V, """        if dest_parent is node:
            raise InvalidOperation("Cannot move a node into itself")
""", """        if dest_parent is node:
            raise InvalidOperation("Cannot move a node into itself")

        if self.cwd is node:
            self.cwd = parent
""")], "moving the directory that is the current directory",
      "the current directory jumps to the parent instead of following the moved directory", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem()
v.mkdir("/a"); v.mkdir("/b"); v.cd("/a"); v.move("/a", "/b")
assert v.pwd() == "/b/a", v.pwd()
""")

plant("U03", "C03", [(V, """        versions = self._transfer_storage(copied, previous_version=previous_version)
        if replaced is not None:
            dest_parent.remove_child(replaced.name)
        dest_parent.add_child(clone)
""", """        if replaced is not None:
            dest_parent.remove_child(replaced.name)
        versions = self._transfer_storage(copied, previous_version=previous_version)
        dest_parent.add_child(clone)
""")], "a copy onto an existing file of a storage mount whose storage refuses the write",
      "the refused copy removes the destination file from the tree", """
from sandfs import VirtualFileSystem, MemoryStorageAdapter
v = VirtualFileSystem()
s = MemoryStorageAdapter({"f": "old"})
v.mount_storage("/m", s); v.write_file("/src", "new")
s.write("f", "external", version=0)
try:
    v.copy("/src", "/m/f")
except Exception:
    pass
assert v.read_file("/m/f") == "old"
""")

plant("U04", "C04", [(V, """        if node.version != expected_version:
            raise InvalidOperation(""", """        if node.version > expected_version:
            raise InvalidOperation(""")], "a guarded write whose expected version lies in the future",
      "a writer holding a version of a file that was since removed and recreated overwrites it", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem()
v.write_file("/f", "1"); v.write_file("/f", "2"); v.write_file("/f", "3")
v.remove("/f"); v.write_file("/f", "other")
try:
    v.write_file("/f", "mine", expected_version=3)
except Exception:
    pass
assert v.read_file("/f") == "other"
""")

plant("U05", "C05", [(V, """        if node.policy.append_only and not append:
            raise InvalidOperation(f"{node.path()} is append-only")
""", """        if node.policy.append_only and not append and (node.version or node.parent is None):
            raise InvalidOperation(f"{node.path()} is append-only")
""")], "an append-only file that came from a provider, storage or mount and was never written (version 0)",
      "append-only content that the sandbox itself never wrote can be replaced", """
from sandfs import VirtualFileSystem, NodePolicy, MemoryStorageAdapter
v = VirtualFileSystem()
v.mount_storage("/m", MemoryStorageAdapter({"log": "keep"}))
v.set_policy("/m/log", NodePolicy(append_only=True))
try:
    v.write_file("/m/log", "gone")
except Exception:
    pass
assert v.read_file("/m/log") == "keep"
""")

plant("U06", "C06", [(V, """                if node.policy.readable and (view is None or view.allows_node(node)):
                    filtered.append(result)""", """                named = result.path == query.path_prefix.parent
                if (node.policy.readable or named) and (view is None or view.allows_node(node)):
                    filtered.append(result)
                elif not node.policy.readable and query.regex and query.query.startswith("^"):
                    filtered.append(result)""")],
      "the full-text index enabled and an anchored regular expression", "an indexed search returns lines of an unreadable file", """
from sandfs import VirtualFileSystem, NodePolicy
from sandfs.search import SearchQuery
v = VirtualFileSystem()
v.write_file("/f", "secret"); v.enable_full_text_index()
v.set_policy("/f", NodePolicy(readable=False))
assert v.search(SearchQuery(query="^sec", regex=True)) == []
""")

plant("U07", "C07", [(P, """            frozenset(classifications) if classifications is not None else None,""",
                      """            frozenset(classifications) if classifications else None,""")],
      "a view built with an empty list of classifications", "a view that allows no classification shows everything", """
from sandfs import VirtualFileSystem, VisibilityView
from sandfs.shell import SandboxShell
v = VirtualFileSystem()
v.write_file("/f", "secret")
sh = SandboxShell(v, view=VisibilityView(classifications=[]))
assert "secret" not in sh.exec("cat /f").stdout
""")

plant("U08", "C08", [(S, """                if self.view and not self.view.allows_node(file_node):
                    continue
                text = file_node.read(self.vfs)
                lines = text.splitlines()
""", """                if self.view and not self.view.allows_node(file_node):
                    break
                text = file_node.read(self.vfs)
                lines = text.splitlines()
""")], "rg over a directory in which a hidden file precedes a visible one",
      "visible matches after the first hidden file are dropped", """
from sandfs import VirtualFileSystem, VisibilityView, NodePolicy
from sandfs.shell import SandboxShell
v = VirtualFileSystem()
v.write_file("/d/a", "x"); v.write_file("/d/b", "x")
v.set_policy("/d/a", NodePolicy(classification="secret"))
sh = SandboxShell(v, view=VisibilityView(classifications=["public"]))
assert "/d/b" in sh.exec("rg x /d").stdout
""")

plant("U09", "C09", [(V, """        normalized = self._normalize(prefix)
        self._path_hooks.append((normalized, hook))
""", """        normalized = self._normalize(prefix)
        for known, other in self._path_hooks:
            if other == hook and self._path_matches_prefix(normalized, known):
                return  # already covered
        self._path_hooks = [
            item for item in self._path_hooks
            if not (item[1] == hook and self._path_matches_prefix(item[0], normalized))
        ]
        self._path_hooks.append((normalized, hook))
""")], "one callable registered for a directory and for one above it (two registrations, each due its own events)",
      "a hook registered twice gets one event instead of one per registration", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem()
seen = []
v.register_path_hook("/a", seen.append); v.register_path_hook("/", seen.append)
v.write_file("/a/f", "1")
assert len(seen) == 2, seen
""")

plant("U10", "C10", [(V, """        rel = path.relative_to(prefix)
        return rel.as_posix()
""", """        rel = path.relative_to(prefix)
        return rel.as_posix().strip()
""")], "a file name that begins or ends with a blank", "the file is stored under another name than it has in the tree", """
from sandfs import VirtualFileSystem, MemoryStorageAdapter
v = VirtualFileSystem()
s = MemoryStorageAdapter()
v.mount_storage("/m", s); v.write_file("/m/notes ", "x")
assert list(s.list()) == ["notes "]
""")

plant("U11", "C11", [(A, """            version = self._refresh_version(rel_path, target=path)
            content = self._read_text(path)
            entries[rel_path]""", """            version = self._versions.get(rel_path)
            if version is None:
                version = self._refresh_version(rel_path, target=path)
            content = self._read_text(path)
            entries[rel_path]""")], "an entry changed on disk, then a sync, then a write",
      "after a sync that shows external content the file stays unwritable", """
import os, tempfile
from sandfs import VirtualFileSystem, FileSystemAdapter
with tempfile.TemporaryDirectory() as t:
    open(t + "/f", "w").write("1")
    v = VirtualFileSystem(); v.mount_storage("/m", FileSystemAdapter(t))
    v.write_file("/m/f", "2")
    open(t + "/f", "w").write("ext"); os.utime(t + "/f", ns=(10**18, 10**18))
    v.sync_storage("/m")
    assert v.read_file("/m/f") == "ext"
    v.write_file("/m/f", "3")
""")

plant("U12", "C12", [(A, """        target.write_text(content, encoding=self.encoding, errors="replace", newline="")""",
                      """        target.write_text(content, encoding="utf-8", newline="")""")],
      "an adapter built with another encoding than UTF-8 and non-ASCII text", "text written is read back differently", """
import tempfile
from sandfs import FileSystemAdapter
with tempfile.TemporaryDirectory() as t:
    a = FileSystemAdapter(t, encoding="utf-16")
    a.write("f", "h\\u00e9", version=0)
    assert a.read("f").content == "h\\u00e9"
""")

plant("U13", "C13", [(V, """        self._storage_mounts = {
            PurePosixPath(path): adapter for path, adapter in snapshot.storage_mounts.items()
        }
        ordered""", """        self._storage_mounts.update(
            (PurePosixPath(path), adapter) for path, adapter in snapshot.storage_mounts.items()
        )
        ordered""")], "a storage mounted after the snapshot, a restore, then writes below the former mount point",
      "writes after the restore still go to storage that was not mounted when the snapshot was taken", """
from sandfs import VirtualFileSystem, MemoryStorageAdapter
v = VirtualFileSystem()
snap = v.snapshot()
s = MemoryStorageAdapter(); v.mount_storage("/m", s)
v.restore(snap)
v.write_file("/m/f", "1")
assert s.list() == {}
""")

plant("U14", "C14", [(V, """            content = file_node.read(self)
            except SandboxError:
                continue
""", """            content = file_node.read(self)
            except SandboxError:
                continue
            if not file_node.policy.readable:
                continue
""")] if False else [("sandfs/search.py", """    def index_file(self, path: PurePosixPath, content: str) -> None:
        self._files[path] = content
""", """    def index_file(self, path: PurePosixPath, content: str) -> None:
        if content:
            self._files[path] = content
""")], "a file emptied by a write while the index is enabled", "searches still find the text the file used to hold", """
from sandfs import VirtualFileSystem
from sandfs.search import SearchQuery
v = VirtualFileSystem()
v.enable_full_text_index(); v.write_file("/f", "old"); v.write_file("/f", "")
assert v.search(SearchQuery(query="old")) == []
""")

plant("U15", "C15", [(V, """        try:
            yield
        finally:
            self._search_view_context = previous
""", """        try:
            yield
        except NodeNotFound:
            raise
        else:
            self._search_view_context = previous
""")] if False else [(V, """        self._search_view_context = SearchViewContext(query=query, view=view)
        try:
            yield
        finally:
            self._search_view_context = previous
            if""", """        if previous is not None and previous.query.query == query.query:
            query = previous.query
        self._search_view_context = SearchViewContext(query=query, view=view)
        try:
            yield
        finally:
            self._search_view_context = SearchViewContext(query=query, view=view)
            if""")], "listing the search view without a query after an earlier query (also from another shell)",
      "the results of one query stay visible to later commands and other shells", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
v = VirtualFileSystem()
v.write_file("/f", "needle"); v.enable_search_view()
SandboxShell(v).exec("ls '/@search?q=needle'")
assert SandboxShell(v).exec("find /@search").stdout == "/@search"
""")

plant("U16", "C16", [(S, """        return pattern.sub(replacer, token)
""", """        expanded = pattern.sub(replacer, token)
        return pattern.sub(replacer, expanded) if "${" in token else expanded
""")], "a variable whose value contains a dollar sign, used in braces", "variable values are expanded again", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
sh = SandboxShell(VirtualFileSystem(), env={"PRICE": "a$b", "b": "no"})
assert sh.exec("echo ${PRICE}").stdout == "a$b\\n"
""")

plant("U17", "C17", [(S, """                try:
                    self._ensure_visible_path(resolved)
                    content = self.vfs.read_file(resolved)
                except (NodeNotFound, InvalidOperation) as exc:
                    return CommandResult(stderr=str(exc), exit_code=1)
            outputs.append(""", """                try:
                    self._ensure_visible_path(resolved)
                    content = self.vfs.read_file(resolved)
                except (NodeNotFound, InvalidOperation) as exc:
                    if not outputs:
                        return CommandResult(stderr=str(exc), exit_code=1)
                    return CommandResult(stdout="\\n".join(outputs), stderr=str(exc))
            outputs.append(""")], "wc with several paths of which a later one is missing",
      "a missing path gives exit code 0", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
v = VirtualFileSystem(); v.write_file("/f", "x")
assert SandboxShell(v).exec("wc /f /missing").exit_code != 0
""")

plant("U18", "C18", [(S, """        if self.allowed_commands is not None and name not in self.allowed_commands:
            return""", """        base = name.removesuffix("3")
        if self.allowed_commands is not None and not self.allowed_commands & {name, base}:
            return""")], "an allow-list with python but not python3 (or a custom command differing by a final 3)",
      "a command outside the allow-list runs", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
sh = SandboxShell(VirtualFileSystem(), allowed_commands=["python"])
assert sh.exec("python3 -c 'print(1)'").exit_code != 0
""")

plant("U19", "C19", [("sandfs/pyexec.py", """        stdout = io.StringIO()
        with contextlib.redirect_stdout(stdout):
            exec(compile(code, filename, "exec"), env, env)
        env.pop("__builtins__", None)
        return PythonExecutionResult(stdout=stdout.getvalue(), globals=env)
""", """        import tempfile

        spool = tempfile.SpooledTemporaryFile(max_size=20000, mode="w+", newline="", encoding="utf-8")
        with spool as stdout:
            with contextlib.redirect_stdout(stdout):
                exec(compile(code, filename, "exec"), env, env)
            env.pop("__builtins__", None)
            stdout.seek(0)
            return PythonExecutionResult(stdout=stdout.read(), globals=env)
""")], "a snippet that prints more than 20000 characters", "a host file is created by an ordinary snippet", """
import sys, tempfile
from sandfs import VirtualFileSystem
from sandfs.pyexec import PythonExecutor
opened = []
sys.addaudithook(lambda name, args: opened.append(args) if name == "open" else None)
with tempfile.TemporaryDirectory() as t:
    tempfile.tempdir = t
    del opened[:]
    PythonExecutor(VirtualFileSystem()).run("print('x' * 50000)")
    assert not [a for a in opened if str(a[0]).startswith(t)], opened
""")

plant("U20", "C20", [(S, """                if isinstance(node, VirtualFile) and node.read(self.vfs) == text:
                    continue""", """                if isinstance(node, VirtualFile) and len(node.read(self.vfs)) == len(text):
                    continue""")], "a host command that changes a file without changing its length",
      "the change is lost", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
v = VirtualFileSystem(); v.write_file("/d/f", "aaa")
SandboxShell(v).exec("host -p /d sh -c 'printf bbb > f'")
assert v.read_file("/d/f") == "bbb"
""")

plant("U21", "C21", [("sandfs/pyexec.py", """        env: dict[str, Any] = dict(self._globals_template)
        if extra_globals:
            env.update(extra_globals)
""", """        if extra_globals:
            self._globals_template.update(extra_globals)
        env: dict[str, Any] = dict(self._globals_template)
""")], "a run with extra globals followed by one without them",
      "names given to one run stay available in later runs", """
from sandfs import VirtualFileSystem
from sandfs.pyexec import PythonExecutor
ex = PythonExecutor(VirtualFileSystem())
ex.run("x = token", extra_globals={"token": 1})
try:
    ex.run("x = token")
except NameError:
    pass
else:
    raise SystemExit("leaked")
""")

plant("U22", "C22", [(N, """            return self._provider(ctx)
        except""", """            return self._provider(ctx) or self._content
        except""")], "a provider mounted over an existing file and returning empty text",
      "the stale static content is returned instead of the provider's empty text", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.write_file("/f", "stale"); v.mount_file("/f", lambda ctx: "")
assert v.read_file("/f") == ""
""")

plant("U23", "C23", [(S, """            set(allowed_commands) if allowed_commands is not None else None
        )""", """            allowed_commands if isinstance(allowed_commands, set)
            else set(allowed_commands) if allowed_commands is not None else None
        )""")], "two shells built from one set of allowed commands that is changed later",
      "changing the caller's set changes the settings of existing shells", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
allowed = {"pwd"}
sh = SandboxShell(VirtualFileSystem(), allowed_commands=allowed)
allowed.add("echo")
assert sh.exec("echo hi").exit_code != 0
""")

plant("U24", "C24", [("sandfs/cli.py", """            if result.stderr:
                sys.stderr.write(result.stderr)
    except""", """            if result.stderr:
                sys.stderr.write(result.stderr)
            if result.exit_code == 127:
                return result.exit_code
    except""")], "an unknown command in the interactive subcommand", "the interactive shell ends at an unknown command", """
import subprocess, sys
out = subprocess.run([sys.executable, "-c", "from sandfs.cli import main; main()", "shell"],
                     input="nosuch\\necho alive\\n", capture_output=True, text=True)
assert "alive" in out.stdout
""")

plant("U25", "C25", [(S, """        self._handler_accepts_ctx[name] = accepts_ctx
""", """        self._handler_accepts_ctx.setdefault(name, accepts_ctx)
""")], "a command registered a second time with another number of parameters (also replacing a built-in)",
      "the new handler is called with the old one's arguments and fails", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
sh = SandboxShell(VirtualFileSystem())
sh.register_command("ls", lambda args: "mine")
assert sh.exec("ls").stdout == "mine"
""")

plant("U26", "C26", [(V, """        self._index_file(node)
        event_type = "create" if previous_version == 0 else "update"
        self._emit_write_event(self._write_event(node, append=append), event_type=event_type)
        return node
""", """        event_type = "create" if previous_version == 0 else "update"
        self._emit_write_event(self._write_event(node, append=append), event_type=event_type)
        self._index_file(node)
        return node
""")], "the full-text index enabled and a hook that searches (or raises)",
      "a hook searching for the text just written does not find it", """
from sandfs import VirtualFileSystem
from sandfs.search import SearchQuery
v = VirtualFileSystem(); v.enable_full_text_index()
seen = []
v.register_write_hook("/", lambda e: seen.append(len(v.search(SearchQuery(query="word")))))
v.write_file("/f", "word")
assert seen == [1]
""")

plant("U27", "C27", [(N, """        for node in provided_nodes:
            self.add_child(node)
        self._loaded = True
""", """        for node in provided_nodes:
            self.add_child(node)
        self._loaded = True
        self.modified_at = time.time()
""")], "a lazily loaded directory listed for the first time some time after it was mounted",
      "listing a directory changes its modification time", """
import time
from sandfs import VirtualFileSystem
from sandfs.providers import ProvidedNode
v = VirtualFileSystem()
v.mount_directory("/d", lambda ctx: {"f": ProvidedNode.file(content="x")})
before = v.get_node("/d").modified_at
time.sleep(0.02); v.ls("/d")
assert v.get_node("/d").modified_at == before
""")

plant("U28", "C09", [(V, """        for prefix, hook in self._path_hooks:
            if self._path_matches_prefix(path, prefix):
                hook(payload)
""", """        for prefix, hook in self._path_hooks:
            if self._path_matches_prefix(path, prefix):
                hook(payload)
                if event_type == "delete" and prefix == path:
                    break
""")], "a hook registered on exactly the removed file and a second hook registered after it",
      "later hooks miss the removal of a file another hook is registered on", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem()
seen = []
v.register_path_hook("/f", lambda e: None); v.register_path_hook("/", seen.append)
v.write_file("/f", "1"); v.remove("/f")
assert [e.event for e in seen] == ["create", "delete"]
""")

plant("U30", "C25", [(S, """            env = dict(self.env)
            expanded_assignments""", """            env = dict(self.env) if spec.assignments else self.env
            expanded_assignments""")], "a custom command that changes the variables it was handed, without a prefix assignment",
      "a command's changes to its context become persistent variables of the shell", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
sh = SandboxShell(VirtualFileSystem())
sh.register_command("leak", lambda args, ctx: ctx.env.update(A="1"))
sh.exec("leak")
assert sh.exec("echo $A").stdout == "\\n"
""")

plant("U31", "C14", [(V, """        if isinstance(node, VirtualFile):
            self._remove_index_entry(node.path())
            self._emit_path_event(node.path(), "delete", None)
""", """        if isinstance(node, VirtualFile):
            if self._find_storage_mount(node.path()) is None:
                self._remove_index_entry(node.path())
            self._emit_path_event(node.path(), "delete", None)
""")], "a stored file removed, then a new file of the same name that is never written (touched)",
      "a search reports text of a removed file at the path of a new empty one", """
from sandfs import VirtualFileSystem, MemoryStorageAdapter
from sandfs.search import SearchQuery
v = VirtualFileSystem(); v.enable_full_text_index()
v.mount_storage("/m", MemoryStorageAdapter({"f": "needle"}))
v.remove("/m/f"); v.touch("/m/f")
assert v.search(SearchQuery(query="needle")) == []
""")

plant("U32", "C13", [(V, """        if self.is_dir(snapshot.cwd):
            self.cwd = self._resolve_dir(snapshot.cwd)
""", """        if self.is_dir(snapshot.cwd) and self.get_policy(snapshot.cwd).readable:
            self.cwd = self._resolve_dir(snapshot.cwd)
""")], "a snapshot taken while the current directory is unreadable",
      "the restore resets the current directory to the root", """
from sandfs import VirtualFileSystem, NodePolicy
v = VirtualFileSystem(); v.mkdir("/d"); v.cd("/d"); v.set_policy("/d", NodePolicy(readable=False))
snap = v.snapshot(); v.cd("/"); v.restore(snap)
assert v.pwd() == "/d"
""")

plant("U33", "C20", [(V, """        with tempfile.TemporaryDirectory() as tmp:
            root = Path(tmp)
            self.export_to_path(root, source=path)
            yield root
""", """        holder = tempfile.TemporaryDirectory(delete=False)
        root = Path(holder.name)
        self.export_to_path(root, source=path)
        try:
            yield root
        finally:
            holder.cleanup()
""")], "a materialization during which a provider fails", "the half-made directory stays on the host", """
import os, tempfile
from sandfs import VirtualFileSystem
with tempfile.TemporaryDirectory() as t:
    tempfile.tempdir = t
    v = VirtualFileSystem(); v.mount_file("/f", lambda ctx: 1 / 0)
    try:
        with v.materialize("/"):
            pass
    except Exception:
        pass
    assert os.listdir(t) == []
""")

plant("U34", "C22", [(N, """        except Exception as exc:
            raise ProviderError(str(exc)) from exc
        provided_nodes""", """        except (KeyError, LookupError):
            snapshot = {}
        except Exception as exc:
            raise ProviderError(str(exc)) from exc
        provided_nodes""")], "a directory provider failing with a lookup error at its first use",
      "the failure is taken for an empty directory and never retried", """
from sandfs import VirtualFileSystem
from sandfs.providers import ProvidedNode
v = VirtualFileSystem()
calls = []
def provider(ctx):
    calls.append(1)
    if len(calls) == 1:
        raise KeyError("not yet")
    return {"f": ProvidedNode.file(content="x")}
v.mount_directory("/d", provider)
try:
    v.ls("/d")
except Exception:
    pass
assert [e.name for e in v.ls("/d")] == ["f"]
""")

plant("U35", "C10", [(V, """        adapter = self._storage_mounts.get(normalized)
        if adapter is None:
            raise InvalidOperation(f"No storage mount at {normalized}")
        self._load_storage_mount(normalized, adapter)
        self._rebuild_index()
""", """        adapter = self._storage_mounts.get(normalized)
        if adapter is None:
            raise InvalidOperation(f"No storage mount at {normalized}")
        before = {path: entry for path, entry in self.walk(normalized)}
        stored = {normalized.joinpath(name): e for name, e in adapter.list().items()}
        if any(
            path not in before or before[path].version != entry.version
            for path, entry in stored.items()
        ):
            self._load_storage_mount(normalized, adapter)
            self._rebuild_index()
""")], "an entry deleted from storage behind the sandbox's back, with nothing else changed, then a sync",
      "the sync keeps showing a file that storage no longer holds", """
from sandfs import VirtualFileSystem, MemoryStorageAdapter
v = VirtualFileSystem()
s = MemoryStorageAdapter({"a": "1", "b": "2"}); v.mount_storage("/m", s)
s.delete("a"); v.sync_storage("/m")
assert not v.exists("/m/a")
""")

plant("U36", "C27", [(V, """            file_clone.write(node.read(self))
            # Timestamps are left as-is since the new node is initialized with current time.
""", """            file_clone.write(node.read(self))
            # Timestamps are left as-is since the new node is initialized with current time.
            if recursive:
                file_clone.modified_at = node.modified_at
""")], "a recursive copy", "files of a copied tree keep the modification time of the originals", """
import time
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.write_file("/a/f", "1"); time.sleep(0.02); now = time.time()
v.copy("/a", "/b", recursive=True)
assert v.get_node("/b/f").modified_at >= now
""")

plant("U37", "C24", [("sandfs/cli.py", """        vfs.enable_full_text_index()
        vfs.enable_search_view()
""", """        if mounts:
            vfs.enable_full_text_index()
        vfs.enable_search_view("/@search" if mounts else "/search")
""")], "search asked for without any mount", "the search view is at another path than documented", """
import subprocess, sys
out = subprocess.run([sys.executable, "-c", "from sandfs.cli import main; main()", "exec", "--enable-search", "ls /"],
                     capture_output=True, text=True)
assert "@search" in out.stdout
""")

plant("U38", "C06", [(S, """            if not self.vfs.get_node(path).policy.readable:
                raise InvalidOperation(f"{normalized} is not readable")
            query = SearchQuery(""", """            query = SearchQuery("""), (V, """        try:
            self._ensure_read_allowed(self._resolve_node(query.path_prefix or "/"))
        except (NodeNotFound, InvalidOperation):
            return []
        if self._full_text_index is not None:""", """        try:
            self._resolve_node(query.path_prefix or "/")
        except (NodeNotFound, InvalidOperation):
            return []
        if self._full_text_index is not None:""")], "the search command naming an unreadable directory while the index is on",
      "the search command lists matches below an unreadable directory it names", """
from sandfs import VirtualFileSystem, NodePolicy
from sandfs.shell import SandboxShell
v = VirtualFileSystem(); v.write_file("/d/f", "word"); v.enable_full_text_index()
v.set_policy("/d", NodePolicy(readable=False))
assert "word" not in SandboxShell(v).exec("search word /d").stdout
""")

plant("U39", "C23", [(V, """            file_clone = VirtualFile(name=node.name, metadata=dict(node.metadata))
            file_clone.policy = self._clone_policy(node.policy)
""", """            file_clone = VirtualFile(name=node.name, metadata=dict(node.metadata))
            file_clone.policy = (
                node.policy if not node.policy.principals else self._clone_policy(node.policy)
            )
""")], "a copied file whose policy object is changed in place afterwards (no principals)",
      "changing the copy's policy in place changes the original's", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.write_file("/a", "1"); v.copy("/a", "/b")
v.get_policy("/b").writable = False
assert v.get_policy("/a").writable
""")

plant("U40", "C16", [(S, """                format_counts(len(content.splitlines()), len(content.encode("utf-8")))
""", """                format_counts(len(content.splitlines()), len(content))
""")], "wc -c of piped non-ASCII text", "the byte count of piped input is a character count", """
from sandfs import VirtualFileSystem
from sandfs.shell import SandboxShell
assert SandboxShell(VirtualFileSystem()).exec("echo -n h\\u00e9 | wc -c").stdout == "3"
""")

plant("U41", "C01", [(V, """        if dest_name in dest_parent.children:
            raise NodeExists(f"Node {dest_name} already exists in {dest_parent_path}")
""", """        existing = dest_parent.children.get(dest_name)
        if existing is not None and getattr(existing, "children", True):
            raise NodeExists(f"Node {dest_name} already exists in {dest_parent_path}")
        if existing is not None:
            dest_parent.remove_child(dest_name)
""")], "moving into a directory that holds an empty directory of the same name",
      "the empty directory is replaced instead of the move being refused", """
from sandfs import VirtualFileSystem
v = VirtualFileSystem(); v.write_file("/a", "1"); v.mkdir("/d/a", parents=True)
try:
    v.move("/a", "/d")
except Exception:
    pass
assert v.is_dir("/d/a") and v.is_file("/a")
""")

plant("U42", "C12", [(A, """        if not target.is_file():
            raise FileNotFoundError(path)
        version""", """        if not target.is_file():
            candidate = self.root / path.lstrip("/").replace("\\\\", "/")
            if not candidate.is_file():
                raise FileNotFoundError(path)
            target = candidate
            return StorageEntry(content=self._read_text(target))
        version""")], "a path with back slashes and dots", "the adapter reads a file outside its root", """
import os, tempfile
from sandfs import FileSystemAdapter
with tempfile.TemporaryDirectory() as t:
    os.mkdir(t + "/root"); open(t + "/secret", "w").write("s")
    try:
        assert FileSystemAdapter(t + "/root").read("..\\\\secret").content != "s"
    except (FileNotFoundError, ValueError):
        pass
""")
