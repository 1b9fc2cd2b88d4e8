V, S, N, A, P = "sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py", "sandfs/adapters.py", "sandfs/policies.py"
SP, SE, PY, CLI, I, PR = "sandfs/shell_parser.py", "sandfs/search.py", "sandfs/pyexec.py", "sandfs/cli.py", "sandfs/integrations.py", "sandfs/providers.py"
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = """
from sandfs import VirtualFileSystem, SandboxShell
"""

plant("Z01", "C14", [(SE, """            for line_no, line in enumerate(content.splitlines(), start=1):
""", """            for line_no, line in enumerate(content.splitlines()[:1000], start=1):
""")], "a file with more than a thousand lines", "the index misses matches after the thousandth line", HEAD + """
from sandfs.search import SearchQuery
v = VirtualFileSystem(); v.enable_full_text_index()
v.write_file("/f", "x\\n" * 1200 + "needle")
assert [r.line_no for r in v.search(SearchQuery("needle"))] == [1201]
""")

plant("Z02", "C14", [(V, """            text = node.read(self)
            for idx, line in enumerate(text.splitlines(), start=1):
""", """            text = node.read(self)
            if len(text) > 65536:
                continue
            for idx, line in enumerate(text.splitlines(), start=1):
""")], "a file of more than 64 K characters", "a scanning search passes over large files", HEAD + """
from sandfs.search import SearchQuery
v = VirtualFileSystem()
v.write_file("/f", "x" * 70000 + "\\nneedle")
assert [r.line_no for r in v.search(SearchQuery("needle"))] == [2]
""")

plant("Z03", "C01", [(N, """        while node and node.parent is not None:
            segments.append(node.name)
            node = node.parent
""", """        while node and node.parent is not None and len(segments) < 32:
            segments.append(node.name)
            node = node.parent
""")], "a node more than 32 levels below the root", "deep nodes report a path they do not have", HEAD + """
v = VirtualFileSystem()
p = "/" + "/".join(f"d{i}" for i in range(40))
v.write_file(p + "/f", "x")
assert str(v.ls(p)[0].path) == p + "/f"
""")

plant("Z04", "C10", [(A, """        return {
            path: StorageEntry(content=entry.content, version=entry.version)
            for path, entry in self._entries.items()
        }
""", """        return {
            path: StorageEntry(content=entry.content, version=entry.version)
            for path, entry in list(self._entries.items())[:100]
        }
""")], "an adapter with more than a hundred entries", "mounting shows only the first hundred entries", HEAD + """
from sandfs.adapters import MemoryStorageAdapter
v = VirtualFileSystem()
v.mount_storage("/m", MemoryStorageAdapter({f"f{i}": "x" for i in range(150)}))
assert len(v.ls("/m")) == 150
""")

plant("Z05", "C20", [(S, """            exit_code=completed.returncode,
""", """            exit_code=completed.returncode & 0x7F,
""")], "a host command with an exit code above 127", "the exit code of the host command is altered", HEAD + """
s = SandboxShell(VirtualFileSystem())
assert s.exec("sh -c 'exit 130'").exit_code == 130
""")

plant("Z06", "C04", [(V, """        node.version += 1
        node.modified_at = time.time()
""", """        node.version = node.version % 64 + 1
        node.modified_at = time.time()
""")], "a file written more than 64 times", "the version starts over", HEAD + """
v = VirtualFileSystem()
for i in range(70):
    v.write_file("/f", str(i))
assert v.get_version("/f") == 70
""")

plant("Z07", "C09", [(I, """        self.events.append({"path": event.path, "event": event.event, "content": event.content})
""", """        self.events.append({"path": event.path, "event": event.event, "content": event.content})
        del self.events[:-50]
""")], "more than fifty events on one recorder", "the recorder forgets its oldest events", HEAD + """
from sandfs.integrations import InboxRecorder
v = VirtualFileSystem(); r = InboxRecorder(); r.attach(v, "/")
for i in range(60):
    v.write_file("/f", str(i))
assert len(r.events) == 60
""")

plant("Z08", "C12", [(A, """        version = self._refresh_version(path, target=target)
""", """        version = self._refresh_version(path, target=target)
        if target.stat().st_size > 1 << 20:
            raise FileNotFoundError(path)
""")], "a file of more than a megabyte", "large files cannot be read back", HEAD + """
import tempfile
from sandfs.adapters import FileSystemAdapter
with tempfile.TemporaryDirectory() as d:
    a = FileSystemAdapter(d); a.write("f", "x" * 1500000, version=0)
    assert len(a.read("f").content) == 1500000
""")

plant("Z10", "C16", [(S, """            stdout_pipe = output

""", """            stdout_pipe = output[:65536]

""")], "more than 64 K characters through a pipe or out of a command", "long output is cut off", HEAD + """
v = VirtualFileSystem(); s = SandboxShell(v)
v.write_file("/f", "x" * 70000)
assert s.exec("cat /f | wc -c").stdout == "70000"
""")

plant("Z11", "C16", [(S, """            mode = "lines"
            idx += 2
""", """            mode = "lines"
            idx += 2
""")], "", "", "")
PLANTS.pop()

plant("Z12", "C25", [(S, """        for name, handler, description in builtin_commands:
            self.register_command(name, handler, description=description)
""", """        for name, handler, description in builtin_commands:
            self.register_command(name, handler, description=description)
        self._builtin_names = frozenset(self.commands)
"""), (S, """        return sorted(self.commands)
""", """        return sorted(self._builtin_names | {name for name in self.commands if self.command_docs.get(name)})
""")], "a command registered without a description", "the command is missing from the list of commands", HEAD + """
s = SandboxShell(VirtualFileSystem())
s.register_command("zz", lambda args: "x")
assert "zz" in s.available_commands()
""")

plant("Z13", "C28", [(S, """            if any(ch in arg for ch in "*?[]"):
""", """            if any(ch in arg[:64] for ch in "*?[]"):
""")], "a pattern whose first wildcard comes after 64 characters", "long patterns are passed on unexpanded", HEAD + """
v = VirtualFileSystem(); s = SandboxShell(v)
v.write_file("/" + "a" * 80 + "1", "x")
assert s.exec("echo -n " + "a" * 80 + "?").stdout == "/" + "a" * 80 + "1"
""")

plant("Z14", "C08", [(P, """            frozenset(classifications) if classifications is not None else None,
""", """            frozenset(sorted(classifications)[:3]) if classifications is not None else None,
""")], "a view of more than three classifications", "nodes of an allowed classification are hidden", HEAD + """
from sandfs import NodePolicy, VisibilityView
v = VirtualFileSystem(); v.write_file("/f", "x"); v.set_policy("/f", NodePolicy(classification="zz"))
s = SandboxShell(v, view=VisibilityView(classifications=["public", "aa", "bb", "zz"]))
assert "f" in s.exec("ls /").stdout.split()
""")

plant("Z15", "C16", [(SP, """    while idx < len(tokens):
        token = tokens[idx]
        if token == "|":
""", """    while idx < len(tokens):
        token = tokens[idx]
        if token == "|" and len(commands) < 15:
""")], "a pipeline of more than sixteen stages", "the last stages are taken for arguments", HEAD + """
v = VirtualFileSystem(); s = SandboxShell(v)
assert s.exec("echo a" + " | cat" * 20).stdout == "a\\n"
""")

plant("Z16", "C24", [(CLI, """            line = input(prompt)
            if line.strip() in {":q", "exit", "quit"}:
""", """            line = input(prompt)[:1024]
            if line.strip() in {":q", "exit", "quit"}:
""")], "an input line of more than 1024 characters", "the interactive shell cuts long lines", HEAD + """
import subprocess, sys
out = subprocess.run([sys.executable, "-c", "from sandfs.cli import main; main()", "shell"], input="echo " + "x" * 2000 + "\\n", capture_output=True, text=True).stdout
assert "x" * 2000 in out
""")

plant("Z17", "C18", [(S, """        if total <= self.max_output_bytes:
            return result
""", """        if total <= max(self.max_output_bytes, len(result.stderr)):
            return result
""")], "error text longer than the limit and no output", "long error text is delivered in full", HEAD + """
s = SandboxShell(VirtualFileSystem(), max_output_bytes=20)
r = s.exec("cat /" + "x" * 300)
assert len(r.stdout) + len(r.stderr) < 100
""")

plant("Z18", "C22", [(V, """                if isinstance(node, VirtualDirectory):
                    extension = "    " if idx == len(entries) - 1 else "│   "
""", """                if isinstance(node, VirtualDirectory) and (node._loaded or node.children or len(prefix) < 8):
                    extension = "    " if idx == len(entries) - 1 else "│   "
""")], "a tree over directory providers three levels down that nobody has used", "provided entries are missing from the rendering", HEAD + """
from sandfs.providers import ProvidedNode
v = VirtualFileSystem()
v.mount_directory("/a/b/c/d", lambda ctx: {"f": ProvidedNode.file(content="x")})
assert v.tree("/").count("f") == 1
""")

plant("Z19", "C15", [(S, """        query_text = params.get("q", [""])[0]
""", """        query_text = params.get("q", [""])[0].rstrip()
""")], "a query whose text ends with a blank", "the view also shows lines where the text is not followed by a blank", HEAD + """
v = VirtualFileSystem(); v.enable_search_view(); s = SandboxShell(v)
v.write_file("/f", "foo bar\\nfoobar")
assert s.exec("cat '/@search?q=foo%20/f'").stdout == "/f:1:foo bar"
""")

plant("Z20", "C26", [(V, """        self._index_file(node)
        event_type = "create" if previous_version == 0 else "update"
""", """        if not self._write_hooks:
            self._index_file(node)
        event_type = "create" if previous_version == 0 else "update"
"""), (V, """        return node

    def append_file(
""", """        self._index_file(node)
        return node

    def append_file(
""")], "a write hook and an index", "a hook searching for the text just written does not find it", HEAD + """
from sandfs.search import SearchQuery
v = VirtualFileSystem(); v.enable_full_text_index(); seen = []
v.register_write_hook("/", lambda e: seen.append(len(v.search(SearchQuery("needle")))))
v.write_file("/f", "needle")
assert seen == [1]
""")

plant("Z21", "C23", [(S, """        self.env: dict[str, str] = dict(env or {})
""", """        self.env: dict[str, str] = dict(env) if env else _NO_ENV
"""), (S, """class SandboxShell:
    \"\"\"Executes""", """_NO_ENV: dict[str, str] = {}


class SandboxShell:
    \"\"\"Executes""")], "two shells built without variables", "a variable set in one shell is set in the other", HEAD + """
a = SandboxShell(VirtualFileSystem()); b = SandboxShell(VirtualFileSystem())
a.exec("X=1")
assert b.exec("echo -n $X").stdout == ""
""")

plant("Z22", "C20", [(S, """            rendered = str(host_path)
            if candidate.endswith("/")""", """            rendered = str(host_path.resolve())
            if candidate.endswith("/")""")], "", "", "")
PLANTS.pop()

plant("Z24", "C17", [(S, """        if self._parse_search_path(source) is not None or self._parse_search_path(dest) is not None:
            return CommandResult(stderr="mv: cannot use search view paths", exit_code=1)
""", """        if self._parse_search_path(source) is not None or self._parse_search_path(dest) is not None:
            return CommandResult(stderr="mv: cannot use search view paths")
""")], "moving a search view path", "a refused move reports success", HEAD + """
v = VirtualFileSystem(); v.enable_search_view(); s = SandboxShell(v)
assert s.exec("mv '/@search?q=x' /y").exit_code != 0
""")

plant("Z25", "C02", [(S, """            normalized = self.vfs._normalize(path)
            query = SearchQuery(
""", """            normalized = PurePosixPath(self.vfs.pwd()).joinpath(path)
            query = SearchQuery(
""")], "", "", "")
PLANTS.pop()

plant("Z26", "C07", [(S, """        if self.view.metadata_filters and isinstance(node, VirtualDirectory):
            return
""", """        if self.view.metadata_filters and (isinstance(node, VirtualDirectory) or not node.metadata):
            return
""")], "a metadata filter and a file without any metadata, named outright", "a hidden file can be read", HEAD + """
from sandfs import VisibilityView
v = VirtualFileSystem(); v.write_file("/f", "secret")
s = SandboxShell(v, view=VisibilityView(metadata_filters={"k": 1}))
assert "secret" not in s.exec("cat /f").stdout
""")

plant("Z27", "C21", [(PY, """        env.pop("__builtins__", None)
""", """        self._globals_template.update((k, v) for k, v in env.items() if k in self._globals_template)
        env.pop("__builtins__", None)
""")], "a snippet that assigns to a configured name", "the next run sees the name rebound", HEAD + """
from sandfs.pyexec import PythonExecutor
v = VirtualFileSystem(); e = PythonExecutor(v, globals_template={"K": 1})
e.run("K = 2")
assert e.run("print(K)").stdout == "1\\n"
""")

plant("Z28", "C27", [(V, """        node.modified_at = time.time()
        return node

    def remove(""", """        node.modified_at = max(node.modified_at, node.created_at + 0.001, time.time() - 1)
        return node

    def remove(""")], "touching a file that was written before", "the modification time is not that of the touch", HEAD + """
import time
v = VirtualFileSystem(); v.write_file("/f", "x"); time.sleep(0.3)
t = time.time(); v.touch("/f")
assert v.get_node("/f").modified_at >= t
""")

plant("Z29", "C11", [(A, """        entry = self._entries.get(path)
        if entry and entry.version != version:
            raise ValueError("version mismatch")
""", """        entry = self._entries.get(path)
        if entry and entry.version != version and entry.content != content:
            raise ValueError("version mismatch")
""")], "a stale write of the very text the entry was changed to", "the stale write goes through and sets the version back", HEAD + """
from sandfs.adapters import MemoryStorageAdapter
a = MemoryStorageAdapter({"f": "a"}); v = VirtualFileSystem(); v.mount_storage("/m", a)
for i in range(3):
    a.write("f", "ext", version=i)
try:
    v.write_file("/m/f", "ext")
except Exception:
    pass
else:
    raise SystemExit("went through")
assert a.read("f").version == 3
""")

plant("Z30", "C05", [(V, """        if node.policy.append_only and not append:
""", """        if node.policy.append_only and not append and (isinstance(node, VirtualDirectory) or node.read(self)):
""")], "an append-only file that is still empty", "an empty append-only file can be removed, renamed and replaced", HEAD + """
from sandfs import NodePolicy
v = VirtualFileSystem(); v.write_file("/f", ""); v.set_policy("/f", NodePolicy(append_only=True))
try:
    v.remove("/f")
except Exception:
    pass
assert v.exists("/f")
""")

plant("Z31", "C06", [(V, """        self._ensure_read_allowed(node)

        dest_path = self._normalize(target)
""", """        if not (recursive and isinstance(node, VirtualFile)):
            self._ensure_read_allowed(node)

        dest_path = self._normalize(target)
""")], "a recursive copy of an unreadable file whose copy is then made readable", "unreadable content can be copied", HEAD + """
from sandfs import NodePolicy
v = VirtualFileSystem(); v.write_file("/f", "secret"); v.set_policy("/f", NodePolicy(readable=False))
try:
    v.copy("/f", "/g", recursive=True)
except Exception:
    pass
assert not v.exists("/g")
""")

plant("Z32", "C19", [(S, """                if not self.host_fallback:
                    return CommandResult(stderr=f"ls: unsupported flag {arg}", exit_code=2)
""", """                if not self.host_fallback and not (ctx and ctx.stdin):
                    return CommandResult(stderr=f"ls: unsupported flag {arg}", exit_code=2)
""")], "an unsupported ls flag in a later stage of a pipeline", "an unsupported flag starts a host process", HEAD + """
s = SandboxShell(VirtualFileSystem())
assert s.exec("echo x | ls -a").exit_code != 0
""")

plant("Z33", "C03", [(V, """        try:
            dest_node = self._resolve_node(dest_path)
        except (NodeNotFound, InvalidOperation):
            dest_parent = self._resolve_dir(dest_path.parent or PurePosixPath("/"))
            self._ensure_write_allowed(dest_parent)
            dest_name = dest_path.name
            if not dest_name:
                raise InvalidOperation("Destination path missing file name") from None
        else:
            if isinstance(dest_node, VirtualDirectory):
                self._ensure_write_allowed(dest_node)
                dest_parent = dest_node
                dest_name = node.name
            else:
                raise InvalidOperation(f"Destination {dest_path} already exists")
""", """        try:
            dest_node = self._resolve_node(dest_path)
        except (NodeNotFound, InvalidOperation):
            dest_parent = self._resolve_dir(
                dest_path.parent or PurePosixPath("/"), create=isinstance(node, VirtualDirectory)
            )
            self._ensure_write_allowed(dest_parent)
            dest_name = dest_path.name
            if not dest_name:
                raise InvalidOperation("Destination path missing file name") from None
        else:
            if isinstance(dest_node, VirtualDirectory):
                self._ensure_write_allowed(dest_node)
                dest_parent = dest_node
                dest_name = node.name
            else:
                raise InvalidOperation(f"Destination {dest_path} already exists")
""")], "moving a directory to a path whose parent does not exist", "missing parents are made, also when the move is then refused", HEAD + """
v = VirtualFileSystem(); v.mkdir("/d")
try:
    v.move("/d", "/d/x/y")
except Exception:
    pass
assert not v.exists("/d/x")
""")
