V, S, N, A, P = "sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py", "sandfs/adapters.py", "sandfs/policies.py"
SP, SE, PY, CLI, I, PR = "sandfs/shell_parser.py", "sandfs/search.py", "sandfs/pyexec.py", "sandfs/cli.py", "sandfs/integrations.py", "sandfs/providers.py"
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = """
from sandfs import VirtualFileSystem, SandboxShell
"""

plant("Q02", "C02", [(V, """        return PurePosixPath("/" + "/".join(parts)) if parts else PurePosixPath("/")

    def _iterate""", """        return PurePosixPath(raw.root or "/", *parts)

    def _iterate""")], "a path that starts with exactly two slashes", "'//x' and '/x' name different places for mounts, hooks and policies", HEAD + """
from sandfs.adapters import MemoryStorageAdapter
v = VirtualFileSystem(); seen = []
v.mkdir("/x")
v.register_write_hook("//x", lambda e: seen.append(e.path))
v.write_file("/x/f", "1")
assert seen == ["/x/f"], seen
""")

plant("Q08", "C07", [(P, """        return policy.classification in self.classifications
""", """        label = policy.classification.lower()
        return any(label == item.lower() for item in self.classifications)
""")], "labels that differ in case only", "a view for 'Secret' also sees nodes labelled 'secret'", HEAD + """
from sandfs.policies import NodePolicy, VisibilityView
v = VirtualFileSystem(); v.write_file("/f", "x"); v.set_policy("/f", NodePolicy(classification="Secret"))
assert [e.name for e in v.ls("/", view=VisibilityView(classifications={"secret", "public"}))] == []
""")

plant("Q09", "C08", [(P, """            if not (policy.principals & self.principals):
                return False
""", """            wanted = {name.strip() for name in self.principals}
            if not (policy.principals & wanted):
                return False
""")], "a principal whose name has spaces around it", "a shell for ' bob' acts on what is bob's", HEAD + """
from sandfs.policies import NodePolicy, VisibilityView
v = VirtualFileSystem(); v.write_file("/f", "x"); v.set_policy("/f", NodePolicy(principals={"bob"}))
r = SandboxShell(v, view=VisibilityView(principals={" bob"})).exec("write /f y")
assert r.exit_code != 0 and v.read_file("/f") == "x"
""")

plant("Q10", "C08", [(P, """            frozenset(PurePosixPath(prefix) for prefix in path_prefixes)
            if path_prefixes is not None
            else None,
""", """            frozenset(PurePosixPath(prefix) for prefix in path_prefixes) or None
            if path_prefixes is not None
            else None,
""")], "a view with an empty set of path prefixes", "a shell that may act nowhere may act everywhere", HEAD + """
from sandfs.policies import VisibilityView
v = VirtualFileSystem(); v.write_file("/f", "x")
r = SandboxShell(v, view=VisibilityView(path_prefixes=[])).exec("write /f y")
assert r.exit_code != 0 and v.read_file("/f") == "x"
""")

plant("Q11", "C07", [(P, """                if node.metadata.get(key) != value:
                    return False
""", """                if str(node.metadata.get(key)) != str(value):
                    return False
""")], "metadata values of different types that print alike", "a filter for tenant '1' shows nodes of tenant 1, one for None's text shows unlabelled nodes", HEAD + """
from sandfs.policies import VisibilityView
v = VirtualFileSystem(); v.write_file("/f", "x"); v.get_node("/f").metadata["t"] = 1
assert [e.name for e in v.ls("/", view=VisibilityView(metadata_filters={"t": "1"}))] == []
""")

plant("Q12", "C09", [(I, """        self.events.append({"path": event.path, "event": event.event, "content": event.content})
""", """        entry = {"path": event.path, "event": event.event, "content": event.content}
        if self.events and self.events[-1] == entry:
            return
        self.events.append(entry)
""")], "writing the same text to one file twice in a row", "the recorder drops the second of two equal events", HEAD + """
from sandfs.integrations import InboxRecorder
v = VirtualFileSystem(); r = InboxRecorder(); v.mkdir("/in"); r.attach(v, "/in")
v.write_file("/in/f", "a"); v.write_file("/in/f", "b"); v.write_file("/in/f", "b")
assert len(r.events) == 3, r.events
""")

plant("Q13", "C09", [(V, """        normalized = self._normalize(prefix)
        self._path_hooks.append((normalized, hook))
""", """        normalized = self._normalize(prefix)
        if (normalized, hook) in self._path_hooks:
            return
        self._path_hooks.append((normalized, hook))
""")], "one hook object registered twice for the same prefix", "the second registration is ignored, so events come once", HEAD + """
v = VirtualFileSystem(); seen = []
hook = lambda e: seen.append(e.event)
v.register_path_hook("/", hook); v.register_path_hook("/", hook)
v.write_file("/f", "x")
assert len(seen) == 2, seen
""")

plant("Q14", "C11", [(A, """        if self._mtimes.get(rel_path) != mtime:
""", """        if self._mtimes.get(rel_path, 0) < mtime:
""")], "a file replaced behind the adapter by an older one (restored from a backup with its times)", "a stale write overwrites an outside change", HEAD + """
import os, tempfile
from sandfs.adapters import FileSystemAdapter
d = tempfile.mkdtemp()
a = FileSystemAdapter(d); v = VirtualFileSystem(); v.mount_storage("/m", a)
v.write_file("/m/f", "mine")
open(d + "/f", "w").write("theirs"); os.utime(d + "/f", (1000, 1000))
try:
    v.write_file("/m/f", "again"); raise SystemExit("no conflict")
except Exception as e:
    print(e)
assert open(d + "/f").read() == "theirs"
""")

plant("Q16", "C12", [(A, """            rel_path = path.relative_to(self.root).as_posix()
            version =""", """            if not path.stat().st_size:
                continue
            rel_path = path.relative_to(self.root).as_posix()
            version =""")], "an empty file below the adapter's root", "mounting does not show empty files on disk", HEAD + """
import tempfile
from sandfs.adapters import FileSystemAdapter
d = tempfile.mkdtemp(); open(d + "/e", "w").close()
v = VirtualFileSystem(); v.mount_storage("/m", FileSystemAdapter(d))
assert v.is_file("/m/e")
""")

plant("Q17", "C13", [(V, """                target.metadata = dict(node_state.metadata)
                target.policy = self._clone_policy(node_state.policy)
                target.version = node_state.version
                target.created_at = node_state.created_at
                target.modified_at = node_state.modified_at
                continue
""", """                target.metadata = dict(node_state.metadata)
                target.version = node_state.version
                target.created_at = node_state.created_at
                target.modified_at = node_state.modified_at
                continue
""")], "a policy on the root when the snapshot is taken", "restoring makes a sealed root writable", HEAD + """
from sandfs.policies import NodePolicy
v = VirtualFileSystem(); v.set_policy("/", NodePolicy(writable=False)); s = v.snapshot(); v.restore(s)
assert not v.get_policy("/").writable
""")

plant("Q20", "C14", [(SE, """        lowered = query.query.lower() if query.ignore_case and not query.regex else None
""", """        lowered = query.query.strip().lower() if query.ignore_case and not query.regex else None
""")], "a case-insensitive query with spaces at its ends and the index on", "index and scan disagree", HEAD + """
from sandfs.search import SearchQuery
v = VirtualFileSystem(); v.write_file("/f", "cat\\nconcatenate\\na cat sat"); v.enable_full_text_index()
assert [r.line_no for r in v.search(SearchQuery(" CAT ", ignore_case=True))] == [3]
""")

plant("Q21", "C15", [(S, """        return value.lower() in {"1", "true", "yes", "on"}
""", """        return value in {"1", "true", "True", "yes", "on"}
""")], "a flag written in capitals in a search path", "regex=TRUE is taken for false", HEAD + """
v = VirtualFileSystem(); v.write_file("/f", "abc"); v.enable_search_view()
assert SandboxShell(v).exec("cat '/@search?q=a.c&regex=TRUE/f'").stdout == "/f:1:abc"
""")

plant("Q22", "C15", [(S, """        query_text = params.get("q", [""])[0]
""", """        query_text = params.get("q", [""])[-1]
        if "%" in query_text:
            from urllib.parse import unquote as url_unquote

            query_text = url_unquote(query_text)
""")], "a query whose decoded text holds another escape", "a search for the text '%41' looks for 'A'", HEAD + """
v = VirtualFileSystem(); v.write_file("/f", "A\\n%41"); v.enable_search_view()
assert SandboxShell(v).exec("cat '/@search?q=%2541/f'").stdout == "/f:2:%41"
""")

plant("Q28", "C18", [(S, """        if total <= self.max_output_bytes:
            return result
""", """        if total <= self.max_output_bytes or not result.stdout and result.exit_code == 0:
            return result
""")], "a successful command that prints nothing but warnings", "a large stderr passes the output limit", HEAD + """
from sandfs.shell import CommandResult
v = VirtualFileSystem(); s = SandboxShell(v, max_output_bytes=10)
s.register_command("warn", lambda args: CommandResult(stderr="w" * 100))
assert s.exec("warn").exit_code != 0
""")

plant("Q29", "C19", [(S, """        if args[0] == "-c" and len(args) >= 2:
            code = " ".join(args[1:])
        else:
            code = " ".join(args)
""", """        if args[0] == "-c" and len(args) >= 2:
            code = " ".join(args[1:])
        elif args[0].endswith(".py") and os.path.isfile(args[0]):
            code = Path(args[0]).read_text(encoding="utf-8")
        else:
            code = " ".join(args)
""")], "a python command whose operand names a script on the host", "the command reads and runs a host file", HEAD + """
import tempfile
d = tempfile.mkdtemp(); open(d + "/s.py", "w").write("print('host')")
r = SandboxShell(VirtualFileSystem()).exec(f"python {d}/s.py")
assert "host" not in r.stdout
""")

plant("Q33", "C20", [(S, """            if sandbox_path is None:
                return candidate
            host_path""", """            if sandbox_path is None or Path(candidate).exists():
                return candidate
            host_path""")], "a sandbox path that also exists on the host", "the host command works on the real file instead of the sandbox's", HEAD + """
import tempfile, os
d = tempfile.mkdtemp(); open(d + "/f", "w").write("host")
v = VirtualFileSystem(); v.write_file(d + "/f", "sandbox")
assert SandboxShell(v).exec(f"host cat {d}/f").stdout == "sandbox"
""")

plant("Q44", "C28", [(V, """                for entry in entries
                if fnmatch.fnmatchcase(entry.name, pattern)
""", """                for entry in entries
                if fnmatch.fnmatchcase(entry.name, pattern)
                and (pattern.startswith(".") or not entry.name.startswith("."))
""")], "names that start with a dot", "a pattern without slashes does not list names that it matches", HEAD + """
v = VirtualFileSystem(); v.write_file("/.h", "x"); v.write_file("/a", "x")
assert sorted(v.glob("*")) == ["/.h", "/a"]
""")

plant("Q47", "C10", [(V, """        prefix, adapter = mount
        relative = self._relative_storage_path(node.path(), prefix)
        adapter.delete(relative)
""", """        prefix, adapter = mount
        relative = self._relative_storage_path(node.path(), prefix)
        if node.version == 0 and not node.read(self):
            return  # only touched, never stored
        adapter.delete(relative)
""")], "removing an empty file that came with the adapter and was never written", "the entry survives in the adapter and comes back with the next sync", HEAD + """
from sandfs.adapters import MemoryStorageAdapter
a = MemoryStorageAdapter({"e": ""}); v = VirtualFileSystem(); v.mount_storage("/m", a)
v.remove("/m/e")
assert "e" not in a.list()
""")

plant("Q48", "C24", [(CLI, """    if result.stderr:
        sys.stderr.write(result.stderr)
    return result.exit_code
""", """    if result.stderr:
        sys.stderr.write(result.stderr)
    return min(result.exit_code, 127)
""")], "a command that exits with more than 127", "the exit status is not the command's", HEAD + """
import subprocess, sys
r = subprocess.run([sys.executable, "-c", "from sandfs.cli import main; main()", "exec", "bash -c 'exit 200'"])
assert r.returncode == 200, r
""")

plant("Q49", "C24", [(CLI, """            if line.strip() in {":q", "exit", "quit"}:
                return 0
            result = shell.exec(line)
""", """            if line.strip() in {":q", "exit", "quit"}:
                return 0
            result = shell.exec(line)
            if result.exit_code == 127:
                return 127
""")], "an unknown command in an interactive session", "the session ends", HEAD + """
import subprocess, sys
r = subprocess.run([sys.executable, "-c", "from sandfs.cli import main; main()", "shell"], input="nope\\necho hi\\n", capture_output=True, text=True)
assert "hi" in r.stdout, r
""")

plant("Q51", "C04", [(V, """        self._ensure_write_allowed(node)
        self._ensure_write_allowed(parent)

        dest_path = self._normalize(target)
        dest_parent: VirtualDirectory
        dest_name: str

        try:
            dest_node = self._resolve_node(dest_path)
        except (NodeNotFound, InvalidOperation):
            dest_parent""", """        self._ensure_write_allowed(node)
        if self._normalize(target).parent != parent.path():
            self._ensure_write_allowed(parent)

        dest_path = self._normalize(target)
        dest_parent: VirtualDirectory
        dest_name: str

        try:
            dest_node = self._resolve_node(dest_path)
        except (NodeNotFound, InvalidOperation):
            dest_parent""")], "moving a file into a directory that lies in the same read-only directory", "a file leaves a read-only directory", HEAD + """
from sandfs.policies import NodePolicy
v = VirtualFileSystem(); v.write_file("/p/f", "1"); v.mkdir("/p/d"); v.set_policy("/p", NodePolicy(writable=False))
try:
    v.move("/p/f", "/p/d")
except Exception: pass
assert v.exists("/p/f")
""")

plant("Q54", "C20", [(V, """        target = Path(target)
        target.mkdir(parents=True, exist_ok=True)
        self._export_directory(node, target)
        return target
""", """        target = Path(target).expanduser()
        target.mkdir(parents=True, exist_ok=True)
        self._export_directory(node, target)
        return target
""")], "a relative export target whose name starts with a tilde", "the export lands in the user's home", HEAD + """
import tempfile, os
d = tempfile.mkdtemp(); os.chdir(d); os.environ["HOME"] = d + "/home"
v = VirtualFileSystem(); v.write_file("/f", "x")
from pathlib import Path
v.export_to_path(Path("~/out"))
assert os.path.isfile(d + "/~/out/f")
""")

plant("Q55", "C25", [(S, """        self.commands[name] = handler
        params""", """        if name in self.commands and not description:
            description = self.command_docs.get(name, "")
        elif name in self.commands and self.commands[name].__name__ == handler.__name__:
            return
        self.commands[name] = handler
        params""")], "replacing a command by another function of the same name, with a description", "the new handler is ignored", HEAD + """
s = SandboxShell(VirtualFileSystem())
def mk(n):
    def h(args): return n
    return h
s.register_command("x", mk("1"), description="a"); s.register_command("x", mk("2"), description="b")
assert s.exec("x").stdout == "2"
""")

plant("Q57", "C16", [(S, """            if spec.stdin is not None:
                stdin_path = self._expand_vars(spec.stdin, env)
                stdin_data = self._read_from_path(stdin_path)
""", """            if spec.stdin is not None and not stdout_pipe:
                stdin_path = self._expand_vars(spec.stdin, env)
                stdin_data = self._read_from_path(stdin_path)
""")], "an input redirection behind a pipe that carries data", "the redirection is ignored", HEAD + """
v = VirtualFileSystem(); v.write_file("/f", "file")
assert SandboxShell(v).exec("echo pipe | cat < /f").stdout == "file"
""")

plant("Q59", "C21", [(PY, """        env: dict[str, Any] = dict(self._globals_template)
        if extra_globals:
            env.update(extra_globals)
        env["__builtins__"] = dict(self._builtins)
""", """        env: dict[str, Any] = dict(self._globals_template)
        env["__builtins__"] = dict(self._builtins)
        if extra_globals:
            env.update(extra_globals)
""")], "globals taken from an ordinary module handed over as extra globals", "the snippet sees every builtin", HEAD + """
from sandfs.pyexec import PythonExecutor
import builtins
e = PythonExecutor(VirtualFileSystem())
try:
    e.run("open", extra_globals=dict(globals()))
    raise SystemExit(1)
except NameError:
    pass
""")

plant("Q63", "C09", [(V, """            self._remove_index_entry(node.path())
            self._emit_path_event(node.path(), "delete", None)
""", """            self._remove_index_entry(node.path())
            if node.version or node.read(self):
                self._emit_path_event(node.path(), "delete", None)
""")], "removing an empty file that was only touched", "its removal is not announced", HEAD + """
v = VirtualFileSystem(); seen = []
v.register_path_hook("/", lambda e: seen.append(e.event)); v.touch("/f"); v.remove("/f")
assert seen == ["delete"], seen
""")
