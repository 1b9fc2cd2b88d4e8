V, S, N, A, P = "sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py", "sandfs/adapters.py", "sandfs/policies.py"
SP, SE, PY, CLI, I, PR = "sandfs/shell_parser.py", "sandfs/search.py", "sandfs/pyexec.py", "sandfs/cli.py", "sandfs/integrations.py", "sandfs/providers.py"
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = """
from sandfs import VirtualFileSystem, SandboxShell
from sandfs.policies import NodePolicy
"""

plant("P01", "C02", [(V, """            if part in ("", "/", "."):
                continue
            if part == "..":""", """            if part.strip() in ("", "/", "."):
                continue
            if part == "..":""")], "a name made of white space", "the name is dropped from the path, so that the call acts on its directory", HEAD + """
v = VirtualFileSystem(); v.mkdir("/d/ ", parents=True); v.write_file("/d/ /f", "1")
assert v.read_file("/d/ /f") == "1" and not v.exists("/d/f")
""")

plant("P02", "C09", [(V, """        normalized = self._normalize(prefix)
        self._path_hooks.append((normalized, hook))""", """        normalized = self._normalize(prefix)
        if self.is_file(normalized):
            normalized = normalized.parent
        self._path_hooks.append((normalized, hook))""")], "a hook registered for a file that exists already", "the hook is told of changes to the file's neighbours", HEAD + """
v = VirtualFileSystem(); v.write_file("/d/f", "1"); seen = []
v.register_path_hook("/d/f", lambda e: seen.append(e.path))
v.write_file("/d/g", "1"); v.write_file("/d/f", "2")
assert seen == ["/d/f"], seen
""")

plant("P04", "C10", [(V, """        matches: list[tuple[PurePosixPath, StorageAdapter]] = []
        for prefix, adapter""", """        memo = self.__dict__.setdefault("_mount_memo", {})
        known = memo.get(path.parent)
        if known is not None and known[0] == len(self._storage_mounts):
            return known[1]
        matches: list[tuple[PurePosixPath, StorageAdapter]] = []
        for prefix, adapter"""), (V, """        if not matches:
            return None
        return max(matches, key=lambda item: len(item[0].parts))""", """        found = max(matches, key=lambda item: len(item[0].parts)) if matches else None
        memo[path.parent] = (len(self._storage_mounts), found)
        return found""")], "another adapter mounted at the same place after writes there", "writes go on to the adapter that was mounted first", HEAD + """
from sandfs.adapters import MemoryStorageAdapter
v = VirtualFileSystem(); a, b = MemoryStorageAdapter(), MemoryStorageAdapter()
v.mount_storage("/m", a); v.write_file("/m/f", "1")
v.mount_storage("/m", b); v.write_file("/m/g", "2")
assert sorted(b.list()) == ["g"] and sorted(a.list()) == ["f"], (a.list(), b.list())
""")

plant("P05", "C22", [(V, """        node.loader = provider
        node._loaded = False  # allow reload""", """        node.loader = node.loader or provider
        node._loaded = False  # allow reload""")], "a directory provider mounted where one was mounted before", "the directory goes on showing what the first provider gave", HEAD + """
from sandfs.providers import ProvidedNode
v = VirtualFileSystem()
v.mount_directory("/d", lambda ctx: {"a": ProvidedNode.file(content="1")})
v.mount_directory("/d", lambda ctx: {"b": ProvidedNode.file(content="2")})
assert v.read_file("/d/b") == "2"
""")

plant("P07", "C16", [(S, """            assignments = pipeline.commands[0].assignments
            for key, value in assignments.items():
                self.env[key] = self._expand_vars(value, self.env)""", """            assignments = pipeline.commands[0].assignments
            self.env.update(
                {key: self._expand_vars(value, self.env) for key, value in assignments.items()}
            )""")], "two assignments on a line, the second using the first", "the second variable gets the first one's former value", HEAD + """
s = SandboxShell(VirtualFileSystem())
s.exec("A=1 B=$A"); r = s.exec("echo -n $B")
assert r.stdout == "1", r
""")

plant("P08", "C16", [(S, """                    count = int(arg_value)
                    mode = "lines"
                    idx += 2
                    continue
                except ValueError:
                    return CommandResult(
                        stderr=f"head:""", """                    if mode == "lines":
                        count = int(arg_value)
                    idx += 2
                    continue
                except ValueError:
                    return CommandResult(
                        stderr=f"head:""")], "head with -c and, after it, -n", "the option given first decides", HEAD + """
v = VirtualFileSystem(); v.write_file("/f", "abc\\ndef\\n")
r = SandboxShell(v).exec("head -c 2 -n 1 /f")
assert r.stdout == "abc\\n", r
""")

plant("P09", "C16", [(S, """                text_parts.append(args[idx + 1])
                idx += 2""", """                text_parts = [args[idx + 1]]
                idx += 2""")], "write with words before --text, or with several --text", "only the last text is written", HEAD + """
v = VirtualFileSystem(); SandboxShell(v).exec("write /f --text a --text b")
assert v.read_file("/f") == "a b", v.read_file("/f")
""")

plant("P10", "C24", [(CLI, """            if line.strip() in {":q", "exit", "quit"}:""", """            if line.strip().lower() in {":q", "exit", "quit"}:""")],
      "a session line that is EXIT or Quit", "the session ends where it should report an unknown command and go on", """
import subprocess, sys
out = subprocess.run([sys.executable, "-c", "from sandfs.cli import main; main()", "shell"], input="EXIT\\nwrite /f yes\\ncat /f\\n", capture_output=True, text=True).stdout
assert "yes" in out, out
""")

plant("P11", "C24", [(CLI, """    for mount in mounts:
        if ":" not in mount:""", """    for mount in sorted(mounts):
        if ":" not in mount:""")], "two --mount options for one place, the later one sorting first", "the sandbox shows and changes the wrong host directory", """
import subprocess, sys, tempfile, pathlib
with tempfile.TemporaryDirectory() as top:
    for name in "ba":
        pathlib.Path(top, name).mkdir(); pathlib.Path(top, name, "f").write_text("in " + name)
    out = subprocess.run([sys.executable, "-c", "from sandfs.cli import main; main()", "exec", "--mount", f"{top}/b:/m", "--mount", f"{top}/a:/m", "cat /m/f"], capture_output=True, text=True).stdout
    assert out == "in a", out
""")

plant("P13", "C28", [(V, """        for path, node in self.walk("/"):
            if view and not view.allows_node(node):""", """        start = pattern_path.parent
        if any(ch in str(start) for ch in "*?["):
            start = PurePosixPath("/")
        for path, node in self.walk(start):
            if view and not view.allows_node(node):""")], "a pattern below a directory that does not exist", "the pattern is an error instead of matching nothing", HEAD + """
v = VirtualFileSystem()
assert v.glob("/none/*") == []
assert SandboxShell(v).exec("echo /none/*").stdout == "/none/*\\n"
""")

plant("P15", "C27", [(V, """        self._ensure_write_allowed(node, append=True)
        node.modified_at = time.time()
        return node""", """        self._ensure_write_allowed(node, append=True)
        now = time.time()
        if now - node.modified_at >= 0.01:
            node.modified_at = now
        return node""")], "a touch right after the file's last change", "the touch leaves the time as it was", HEAD + """
import time
v = VirtualFileSystem(); bad = 0
for _ in range(20):
    node = v.write_file("/f", "1"); before = time.time(); v.touch("/f"); bad += node.modified_at < before
assert not bad, bad
""")

plant("P17", "C20", [(S, """        if self.vfs.exists(path_str):
            return normalized""", """        if self.vfs.exists(path_str):
            return PurePosixPath(path_str)""")], "a word of a host command that climbs above the root, such as /../f", "the word names a place outside the materialized tree", HEAD + """
v = VirtualFileSystem(); v.write_file("/d/f", "inside")
r = SandboxShell(v).exec("host cat /../d/f")
assert r.stdout == "inside", r
""")

plant("P18", "C15", [(S, """        base_str, tail = raw.split("?", 1)""", """        base_str, _, tail = raw.rpartition("?")""")], "a query with a question mark in it", "the path names no query any more", HEAD + """
v = VirtualFileSystem(); v.enable_search_view(); v.write_file("/f", "is it?\\n")
r = SandboxShell(v).exec("cat '/@search?q=it?/f'")
assert r.exit_code == 0 and r.stdout == "/f:1:is it?", r
""")

plant("P19", "C15", [(S, """                path_prefix = PurePosixPath("/").joinpath(path_prefix)""", """                path_prefix = PurePosixPath(self.vfs.pwd()).joinpath(path_prefix)""")],
      "a query with a relative path= while the shell is not at the root", "the results come from below the working directory", HEAD + """
v = VirtualFileSystem(); v.enable_search_view(); v.write_file("/d/f", "one\\n"); v.mkdir("/e")
s = SandboxShell(v); s.exec("cd /e")
r = s.exec("ls '/@search?q=one&path=d'")
assert r.stdout == "d/", r
""")

plant("P20", "C03", [(V, """        self._ensure_read_allowed(node)
        self.cwd = node
        return self.pwd()""", """        self.cwd = node
        self._ensure_read_allowed(node)
        return self.pwd()""")], "cd to an unreadable directory", "the refused cd changes the working directory", HEAD + """
v = VirtualFileSystem(); v.mkdir("/d"); v.set_policy("/d", NodePolicy(readable=False))
try: v.cd("/d")
except Exception: pass
assert v.pwd() == "/", v.pwd()
""")

plant("P22", "C05", [(V, """                self._ensure_write_allowed(parent_node)
                self._ensure_write_allowed(dest_node)""", """                self._ensure_write_allowed(parent_node)
                self._ensure_write_allowed(
                    dest_node, append=node.read(self).startswith(dest_node.read(self))
                )""")], "a copy onto an append-only file of a text that begins with the file's", "the append-only file is replaced", HEAD + """
v = VirtualFileSystem(); v.write_file("/log", "a"); v.set_policy("/log", NodePolicy(append_only=True)); v.write_file("/new", "ab")
try: v.copy("/new", "/log")
except Exception: pass
assert v.read_file("/log") == "a" and v.get_policy("/log").append_only
""")

plant("P23", "C10", [(V, """        normalized = self._normalize(path)
        adapter = self._storage_mounts.get(normalized)""", """        normalized = PurePosixPath(path)
        adapter = self._storage_mounts.get(normalized)""")], "a sync that names the mount by a relative path or with dots", "the sync is refused", HEAD + """
from sandfs.adapters import MemoryStorageAdapter
v = VirtualFileSystem(); a = MemoryStorageAdapter(); v.mount_storage("/m", a); a.write("f", "1", version=0)
v.sync_storage("m/../m/")
assert v.read_file("/m/f") == "1"
""")

plant("P25", "C06", [(S, """                    if not node.policy.readable:
                        raise InvalidOperation(f"{node.path()} is not readable") from None
""", ""), (S, """            size = len(node.read(self.vfs))
            kind = "regular file\"""", """            size = len(node.read(self.vfs))
            kind = f"regular file ({node.read(self.vfs)[:8]!r}...)" if size > 64 else "regular file\"""")], "stat of an unreadable file of more than 64 characters", "stat shows how the file begins", HEAD + """
v = VirtualFileSystem(); v.write_file("/f", "secret12" * 10); v.set_policy("/f", NodePolicy(readable=False))
r = SandboxShell(v).exec("stat /f")
assert "secret12" not in r.stdout, r
""")
