V, S, N, A, P = "sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py", "sandfs/adapters.py", "sandfs/policies.py"
CLI = "sandfs/cli.py"
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = """
from sandfs import VirtualFileSystem, SandboxShell
from sandfs.policies import NodePolicy
"""

SP, PY, SE = "sandfs/shell_parser.py", "sandfs/pyexec.py", "sandfs/search.py"

plant("N01", "C09", [(V, """        normalized = self._normalize(prefix)
        self._path_hooks.append((normalized, hook))""", """        normalized = self._normalize(prefix)
        if any(known == hook for _, known in self._path_hooks):
            self._path_hooks = [entry for entry in self._path_hooks if entry[1] != hook]
        self._path_hooks.append((normalized, hook))""")], "one path hook registered at two places", "the first place is forgotten", HEAD + """
v = VirtualFileSystem(); seen = []
hook = seen.append
v.register_path_hook("/a", hook); v.register_path_hook("/b", hook)
v.write_file("/a/f", "1"); v.write_file("/b/f", "1")
assert [e.path for e in seen] == ["/a/f", "/b/f"], seen
""")

plant("N02", "C20", [(V, """        with tempfile.TemporaryDirectory() as tmp:
            root = Path(tmp)
            self.export_to_path(root, source=path)
            yield root""", """        import shutil

        root = Path(tempfile.mkdtemp())
        try:
            self.export_to_path(root, source=path)
            yield root
        except Exception:
            shutil.rmtree(root)
            raise
        shutil.rmtree(root)""")], "a materialized directory left by an interrupt or an early exit", "the directory stays behind", HEAD + """
v = VirtualFileSystem(); v.write_file("/f", "1")
import os
try:
    with v.materialize() as root:
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
left = os.path.exists(root)
if left:
    import shutil; shutil.rmtree(root)
assert not left
""")

plant("N05", "C11", [(A, """        if self._mtimes.get(rel_path) != mtime:
""", """        if self._mtimes.get(rel_path, 0) < mtime:
""")], "an external change that carries an older modification time", "the change is overwritten", HEAD + """
import tempfile, os, pathlib
from sandfs.adapters import FileSystemAdapter
with tempfile.TemporaryDirectory() as top:
    f = pathlib.Path(top, "f"); f.write_text("1"); v = VirtualFileSystem(); v.mount_storage("/m", FileSystemAdapter(pathlib.Path(top)))
    f.write_text("other"); os.utime(f, ns=(10**18, 10**18))
    try:
        v.write_file("/m/f", "mine")
    except Exception:
        pass
    assert f.read_text() == "other"
""")

plant("N07", "C21", [(PY, """        env["__builtins__"] = dict(self._builtins)
        stdout = io.StringIO()""", """        env["__builtins__"] = dict(self._builtins)
        if filename != "<sandbox>":
            env["__builtins__"] = self._builtins
        stdout = io.StringIO()""")], "a run with a file name of its own that replaces a builtin", "later runs get the replaced builtin", HEAD + """
from sandfs.pyexec import PythonExecutor
p = PythonExecutor(VirtualFileSystem())
p.run("__builtins__['len'] = None", filename="x.py")
assert p.run("print(len([1]))").stdout.strip() == "1"
""")

plant("N08", "C21", [(PY, """        if extra_globals:
            env.update(extra_globals)
""", """        if extra_globals:
            env = extra_globals if not set(extra_globals).isdisjoint(env) else env
            env.update({**self._globals_template, **extra_globals})
""")], "extra globals that replace a sandbox handle", "the caller's dictionary is filled with the run's names", HEAD + """
from sandfs.pyexec import PythonExecutor
p = PythonExecutor(VirtualFileSystem())
extra = {"fs": 1}
p.run("x = fs", extra_globals=extra)
assert extra == {"fs": 1}, extra
""")

plant("N09", "C25", [(S, """            if len(params) >= 2:
                accepts_ctx = True""", """            if len(params) >= 2 and not (len(params) == 2 and params[1].default is not params[1].empty and params[1].default is not None):
                accepts_ctx = True""")], "a command whose second parameter has a default other than None", "it gets no context", HEAD + """
s = SandboxShell(VirtualFileSystem())
s.register_command("x", lambda args, ctx=False: "ctx" if ctx else "none")
assert s.exec("x").stdout == "ctx"
""")

plant("N10", "C14", [(SE, """            if query.path_prefix and not path.is_relative_to(query.path_prefix):
                continue
""", """            if query.path_prefix and not path.is_relative_to(query.path_prefix):
                if not query.regex or path.parent != query.path_prefix.parent or query.path_prefix in self._files:
                    continue
                if not path.name.startswith(query.path_prefix.name + "."):
                    continue
""")], "an indexed regex search below a directory beside a file of the same name with an extension", "the file's lines are reported too", HEAD + """
from sandfs.search import SearchQuery
from pathlib import PurePosixPath
v = VirtualFileSystem(); v.enable_full_text_index(); v.write_file("/a/f", "x"); v.write_file("/a.txt", "x")
assert [str(r.path) for r in v.search(SearchQuery("x", regex=True, path_prefix=PurePosixPath("/a")))] == ["/a/f"]
""")

plant("N12", "C01", [(V, """                for child in node.iter_children(self):
                    yield from _walk(child)

        return _walk(start_node)""", """                for child in node.iter_children(self):
                    if child.policy.append_only and isinstance(child, VirtualDirectory) and not child.children:
                        continue
                    yield from _walk(child)

        return _walk(start_node)""")], "an empty append-only directory", "walks, snapshots and globs miss it", HEAD + """
v = VirtualFileSystem(); v.mkdir("/d"); v.set_policy("/d", NodePolicy(append_only=True))
assert "/d" in [str(p) for p, _ in v.walk("/")]
""")

plant("N13", "C27", [(S, """        created = datetime.fromtimestamp(node.created_at).strftime("%Y-%m-%d %H:%M:%S")
        modified = datetime.fromtimestamp(node.modified_at).strftime("%Y-%m-%d %H:%M:%S")""", """        created = datetime.fromtimestamp(node.created_at).strftime("%Y-%m-%d %H:%M:%S")
        modified = created
        if int(node.modified_at) // 60 != int(node.created_at) // 60 or int(node.modified_at) % 60 > int(node.created_at) % 60:
            modified = datetime.fromtimestamp(node.modified_at).strftime("%Y-%m-%d %H:%M:%S")""")], "a file whose recorded change lies before its creation", "stat shows the creation time as the change time", HEAD + """
v = VirtualFileSystem(); v.write_file("/f", "1"); n = v.get_node("/f"); n.created_at = 1000000045.0; n.modified_at = 1000000044.0
out = SandboxShell(v).exec("stat /f").stdout
assert out.split("Birth: ")[1].split("\\n")[0] != out.split("Modify: ")[1], out
""")

plant("N14", "C16", [(S, """        output = " ".join(args)
        if newline:
            output += "\\n\"""", """        output = " ".join(args)
        if newline and not (ctx and ctx.stdin and not args):
            output += "\\n\"""")], "an echo without words that is fed by a pipe", "the line end is missing", HEAD + """
assert SandboxShell(VirtualFileSystem()).exec("echo a | echo").stdout == "\\n"
""")

plant("N15", "C16", [(S, """            if path == "-":
                blobs.append(ctx.stdin if ctx else "")
                continue
""", """            if path == "-":
                blobs.append(ctx.stdin if ctx else "")
                if ctx:
                    ctx.stdin = ""
                continue
""")], "cat naming its input twice", "the second mention gives nothing", HEAD + """
v = VirtualFileSystem()
assert SandboxShell(v).exec("echo -n a | cat - -").stdout == "aa"
""")

plant("N17", "C05", [(V, """                self._ensure_write_allowed(parent_node)
                self._ensure_write_allowed(dest_node)
                replaced = dest_node""", """                if not dest_node.policy.writable or dest_node.read(self) != node.read(self):
                    self._ensure_write_allowed(parent_node)
                    self._ensure_write_allowed(dest_node)
                replaced = dest_node""")], "a copy onto an append-only file with the same content, or onto a file in a read-only directory", "the file is replaced", HEAD + """
from sandfs.exceptions import SandboxError
v = VirtualFileSystem(); v.write_file("/f", "1"); v.write_file("/g", "1"); v.set_policy("/g", NodePolicy(append_only=True))
try:
    v.copy("/f", "/g")
except SandboxError:
    pass
assert v.get_version("/g") == 1 and v.get_policy("/g").append_only
""")

plant("N18", "C23", [(V, """            directory_clone = VirtualDirectory(name=node.name, metadata=dict(node.metadata))""", """            directory_clone = VirtualDirectory(name=node.name)
            directory_clone.metadata = dict(node.metadata) if node.children else node.metadata""")], "a recursive copy of a tree with an empty directory", "the copy shares its metadata with the source", HEAD + """
v = VirtualFileSystem(); v.mkdir("/a/e", parents=True); v.copy("/a", "/b", recursive=True); v.get_node("/b/e").metadata["k"] = 1
assert "k" not in v.get_node("/a/e").metadata
""")

plant("N19", "C15", [(S, """        return value.lower() in {"1", "true", "yes", "on"}""", """        return value.strip().lower() in {"1", "true", "yes", "on", ""}""")], "a flag given without a value", "the flag is taken as set", HEAD + """
v = VirtualFileSystem(); v.write_file("/f", "ABC"); v.enable_search_view()
assert SandboxShell(v).exec("ls '/@search?q=abc&ignore_case='").stdout == ""
""")

plant("N24", "C20", [(S, """        if env:
            merged_env.update(env)
""", """        if env:
            merged_env.update({key: value for key, value in env.items() if value})
""")], "a variable set to nothing that the host also has", "the host's value is used", HEAD + """
import os
os.environ["QZ"] = "host"
assert SandboxShell(VirtualFileSystem(), env={"QZ": ""}).exec("host sh -c 'echo [$QZ]'").stdout == "[]\\n"
""")

plant("N26", "C13", [(V, """        self._storage_mounts = {
            PurePosixPath(path): adapter for path, adapter in snapshot.storage_mounts.items()
        }""", """        self._storage_mounts = {
            **self._storage_mounts,
            **{PurePosixPath(path): adapter for path, adapter in snapshot.storage_mounts.items()},
        }""")], "a restore to before a mount", "the mount stays: later writes there reach the adapter", HEAD + """
from sandfs.adapters import MemoryStorageAdapter
v = VirtualFileSystem(); s = v.snapshot(); a = MemoryStorageAdapter(); v.mount_storage("/m", a); v.restore(s); v.write_file("/m/f", "1")
assert not a.list()
""")

plant("N28", "C10", [(V, """        if isinstance(node, VirtualFile):
            self._delete_storage_entry(node)
        parent.remove_child(node.name)""", """        if isinstance(node, VirtualFile):
            self._delete_storage_entry(node)
        else:
            self._storage_mounts.pop(target, None)
        parent.remove_child(node.name)""")], "a mounted directory removed and made again", "what is written there is no longer stored", HEAD + """
from sandfs.adapters import MemoryStorageAdapter
v = VirtualFileSystem(); a = MemoryStorageAdapter({"x": "1"}); v.mount_storage("/m", a); v.remove("/m", recursive=True); v.write_file("/m/f", "1")
assert list(a.list()) == ["f"]
""")

plant("N30", "C11", [(A, """        if entry and entry.version != version:
            raise ValueError("version mismatch")
        next_version""", """        if entry and entry.version != version and (entry.content or version):
            raise ValueError("version mismatch")
        next_version""")], "an entry that was emptied behind the sandbox's back and is written with version zero", "the write goes through", HEAD + """
from sandfs.adapters import MemoryStorageAdapter
a = MemoryStorageAdapter({"x": "1"}); v = VirtualFileSystem(); v.mount_storage("/m", a); a.write("x", "", version=0)
try:
    v.write_file("/m/x", "mine")
except Exception:
    pass
assert a.read("x").content == ""
""")

plant("N33", "C07", [(P, """            if not (policy.principals & self.principals):
                return False
            return True""", """            if not (policy.principals & self.principals) and "*" not in policy.principals | self.principals:
                return False
            return True""")], "a principal named *", "it is taken as everybody", HEAD + """
from sandfs.policies import VisibilityView
assert not VisibilityView(principals={"*"}).allows(NodePolicy(principals={"bob"}))
""")

plant("N34", "C07", [(P, """                if node.metadata.get(key) != value:
                    return False""", """                if str(node.metadata.get(key)) != str(value):
                    return False""")], "a metadata value that looks like the filter's but is of another type", "the file is shown", HEAD + """
from sandfs.policies import VisibilityView
v = VirtualFileSystem(); v.write_file("/f", "tok"); v.get_node("/f").metadata["k"] = "1"
assert "tok" not in SandboxShell(v, view=VisibilityView(metadata_filters={"k": 1})).exec("cat /f").stdout
""")

plant("N35", "C28", [(V, """        if not pattern:
            return []
        cwd_path""", """        if not pattern:
            return []
        pattern = pattern.replace("[^", "[!")
        cwd_path""")], "a bracket that begins with a caret", "it is taken as a negation", HEAD + """
v = VirtualFileSystem(); v.write_file("/a", ""); v.write_file("/b", "")
assert v.glob("[^a]") == ["/a"]
""")

plant("N36", "C05", [(V, """        node = self._ensure_file(path, create=True)
        self._ensure_write_allowed(node, append=True)
        node.modified_at = time.time()""", """        node = self._ensure_file(path, create=True)
        if node.version or not node.policy.readable:
            self._ensure_write_allowed(node, append=True)
        node.modified_at = time.time()""")], "a touch of a read-only file that was never written", "its time changes", HEAD + """
v = VirtualFileSystem(); v.touch("/f"); v.set_policy("/f", NodePolicy(writable=False)); n = v.get_node("/f"); n.modified_at = 5.0
try:
    v.touch("/f")
except Exception:
    pass
assert n.modified_at == 5.0
""")

plant("N41", "C23", [(P, """            dict(metadata_filters) if metadata_filters is not None else None,""", """            metadata_filters or None,""")], "a caller that changes the filters it made a view with", "the view changes", HEAD + """
from sandfs.policies import VisibilityView
f = {"k": 1}; view = VisibilityView(metadata_filters=f); f["k"] = 2
assert view.metadata_filters == {"k": 1}
""")

plant("N45", "C27", [(V, """        self._ensure_write_allowed(node, append=True)
        node.modified_at = time.time()
        return node""", """        self._ensure_write_allowed(node, append=True)
        if node._provider is None:
            node.modified_at = time.time()
        return node""")], "a touch of a file with a content provider", "its time stays", HEAD + """
v = VirtualFileSystem(); v.mount_file("/f", lambda ctx: "x"); n = v.get_node("/f"); n.modified_at = 5.0; v.touch("/f")
assert n.modified_at > 5
""")

plant("N47", "C14", [(SE, """            for line_no, line in enumerate(content.splitlines(), start=1):""", """            lines = content.splitlines() if "\\r" in content or not content.isascii() else content.removesuffix("\\n").split("\\n")
            for line_no, line in enumerate(lines if content else [], start=1):""")], "an indexed text with form feeds", "it is cut into other lines", HEAD + """
from sandfs.search import SearchQuery
v = VirtualFileSystem(); v.enable_full_text_index(); v.write_file("/f", "a\\x0cb\\n")
assert [(r.line_no, r.line_text) for r in v.search(SearchQuery("b"))] == [(2, "b")]
""")

plant("N49", "C25", [(S, """        self._handler_accepts_ctx[name] = accepts_ctx""", """        self._handler_accepts_ctx.setdefault(name, accepts_ctx)""")], "a command registered again with another shape", "it is called as the former one", HEAD + """
s = SandboxShell(VirtualFileSystem()); s.register_command("x", lambda args: "1"); s.register_command("x", lambda args, ctx: "2")
assert s.exec("x").stdout == "2"
""")
