"""Behaviour-preserving rewrites of sandfs, on which every check has to stay quiet.

refactors.py [--list] [--checks C01,C05] [--only NAME,...] [--jobs N] [--scale X]

All rewrites are applied together in a scratch copy (those named by --only otherwise); the repository's tests and every
check then run against the copy (SANDFS_REPO). Exit 1 when anything is not quiet.
"""
import argparse, os, pathlib, shutil, subprocess, sys, tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
R = []


def r(name, stem, old, new):
    R.append((name, stem, old, new))


r("prefix", "vfs", '''        if prefix == PurePosixPath("/"):
            return True
        try:
            path.relative_to(prefix)
            return True
        except ValueError:
            return False
''', '''        wanted = prefix.parts
        return path.parts[: len(wanted)] == wanted
''')
r("clone-policy", "vfs", '''        return NodePolicy(
            readable=policy.readable,
            writable=policy.writable,
            append_only=policy.append_only,
            classification=policy.classification,
            principals=set(policy.principals),
        )
''', '''        return replace(policy, principals=set(policy.principals))
''')
r("find-mount", "vfs", '''        matches: list[tuple[PurePosixPath, StorageAdapter]] = []
        for prefix, adapter in self._storage_mounts.items():
            if self._path_matches_prefix(path, prefix):
                matches.append((prefix, adapter))
        if not matches:
            return None
        return max(matches, key=lambda item: len(item[0].parts))
''', '''        for candidate in (path, *path.parents):
            adapter = self._storage_mounts.get(candidate)
            if adapter is not None:
                return candidate, adapter
        return None
''')
r("normalize", "vfs", '''        parts: list[str] = []
        for part in raw.parts:
            if part in ("", "/", "."):
                continue
            if part == "..":
                if parts:
                    parts.pop()
                continue
            parts.append(part)
        return PurePosixPath("/" + "/".join(parts)) if parts else PurePosixPath("/")
''', '''        result = PurePosixPath("/")
        for part in self._iterate_parts(raw):
            if part == "..":
                result = result.parent
            elif part != ".":
                result = result / part
        if result.root == "//":
            result = PurePosixPath("/" + str(result).lstrip("/"))
        return result
''')
r("walk", "vfs", '''        def _walk(node: VirtualNode) -> Iterator[tuple[PurePosixPath, VirtualNode]]:
            yield (node.path(), node)
            if isinstance(node, VirtualDirectory):
                node.ensure_loaded(self)
                for child in node.iter_children(self):
                    yield from _walk(child)

        return _walk(start_node)
''', '''        def _walk() -> Iterator[tuple[PurePosixPath, VirtualNode]]:
            pending: list[VirtualNode] = [start_node]
            while pending:
                node = pending.pop()
                yield (node.path(), node)
                if isinstance(node, VirtualDirectory):
                    pending.extend(reversed(list(node.iter_children(self))))

        return _walk()
''')
r("ls", "vfs", '''        directory.ensure_loaded(self)
        entries: list[DirEntry] = []
        for child in directory.iter_children(self):
            if view and not view.allows_node(child):
                continue
            entries.append(
                DirEntry(
                    name=child.name,
                    path=child.path(),
                    is_dir=isinstance(child, VirtualDirectory),
                    metadata=child.metadata,
                    policy=child.policy,
                )
            )
        entries.sort(key=lambda entry: (not entry.is_dir, entry.name))
        return entries
''', '''        return sorted(
            (
                self._entry_of(child)
                for child in directory.iter_children(self)
                if view is None or view.allows_node(child)
            ),
            key=lambda entry: (0 if entry.is_dir else 1, entry.name),
        )

    def _entry_of(self, child: VirtualNode) -> DirEntry:
        kind = isinstance(child, VirtualDirectory)
        return DirEntry(child.name, child.path(), kind, child.metadata, child.policy)
''')
r("search", "vfs", '''            text = node.read(self)
            for idx, line in enumerate(text.splitlines(), start=1):
                matched = False
                if query.regex:
                    if compiled and compiled.search(line):
                        matched = True
                elif query.ignore_case:
                    if lowered is not None and lowered in line.lower():
                        matched = True
                else:
                    if query.query in line:
                        matched = True
                if matched:
                    file_results.append(
                        SearchResult(path=path, line_no=idx, line_text=line)
                    )
''', '''            def hit(line: str) -> bool:
                if compiled is not None:
                    return compiled.search(line) is not None
                if query.ignore_case:
                    return lowered is not None and lowered in line.lower()
                return query.query in line

            number = 0
            for line in node.read(self).splitlines():
                number += 1
                if hit(line):
                    file_results.append(SearchResult(path, number, line))
''')
r("snapshot", "vfs", '''        for path, node in self.walk("/"):
            if isinstance(node, VirtualFile):
                content = node.read(self)
            else:
                content = None
            nodes[str(path)] = NodeSnapshot(
''', '''        for path, node in list(self.walk("/")):
            content = node.read(self) if isinstance(node, VirtualFile) else None
            nodes[path.as_posix()] = NodeSnapshot(
''')
r("restore", "vfs", '''            if node_state.is_dir:
                directory = self._resolve_dir(path, create=True)
                directory.metadata = dict(node_state.metadata)
                directory.policy = self._clone_policy(node_state.policy)
                directory.version = node_state.version
                directory.created_at = node_state.created_at
                directory.modified_at = node_state.modified_at
            else:
                file_node = self._ensure_file(path, create=True)
                file_node.metadata = dict(node_state.metadata)
                file_node.policy = self._clone_policy(node_state.policy)
                file_node.write(node_state.content or "")
                file_node.version = node_state.version
                file_node.created_at = node_state.created_at
                file_node.modified_at = node_state.modified_at
''', '''            fresh: VirtualNode
            if node_state.is_dir:
                fresh = self._resolve_dir(path, create=True)
            else:
                fresh = self._ensure_file(path, create=True)
                fresh.write(node_state.content or "")
            fresh.modified_at = node_state.modified_at
            fresh.created_at = node_state.created_at
            fresh.version = node_state.version
            fresh.policy = self._clone_policy(node_state.policy)
            fresh.metadata = dict(node_state.metadata)
''')
r("tree", "vfs", '''                connector = "└──" if idx == len(entries) - 1 else "├──"
                if isinstance(node, VirtualDirectory):
                    label = f"{prefix}{connector} {node.name}/"
                else:
                    label = f"{prefix}{connector} {node.name}"
                lines.append(label)
                if isinstance(node, VirtualDirectory):
                    extension = "    " if idx == len(entries) - 1 else "│   "
                    render(node, prefix + extension)
''', '''                last = idx + 1 == len(entries)
                mark = "/" if isinstance(node, VirtualDirectory) else ""
                lines.append(prefix + ("└── " if last else "├── ") + node.name + mark)
                if mark:
                    render(node, prefix + ("    " if last else "│   "))
''')
r("exists", "vfs", '''        try:
            self._resolve_node(path)
            return True
        except (NodeNotFound, InvalidOperation):
            return False

    def get_version''', '''        try:
            found = self._resolve_node(path)
        except (InvalidOperation, NodeNotFound):
            found = None
        return found is not None

    def get_version''')
r("write-order", "vfs", '''        self._check_version(node, expected_version)
        previous_version = node.version
        saved = dict(vars(node))
''', '''        previous_version = node.version
        self._check_version(node, expected_version)
        saved = {key: value for key, value in vars(node).items()}
''')
r("export", "vfs", '''        for child in node.iter_children(self):
            target = dest / child.name
''', '''        for child in sorted(node.iter_children(self), key=lambda entry: entry.name):
            target = dest.joinpath(child.name)
''')
r("visible", "shell", '''        if self.view.path_prefixes is not None:
            normalized = self.vfs._normalize(path)
            if not any(
                normalized.is_relative_to(prefix) or prefix.is_relative_to(normalized)
                for prefix in self.view.path_prefixes
            ):
                raise InvalidOperation(f"Path {path} is hidden for this view")
        target = self.vfs._normalize(path)
''', '''        hidden = InvalidOperation(f"Path {path} is hidden for this view")
        target = self.vfs._normalize(path)
        prefixes = self.view.path_prefixes
        if prefixes is not None:
            related = [p for p in prefixes if p.is_relative_to(target) or target.is_relative_to(p)]
            if not related:
                raise hidden
''')
r("limit", "shell", '''        total = len((result.stdout + result.stderr).encode("utf-8", errors="surrogatepass"))
        if total <= self.max_output_bytes:
            return result
''', '''        total = sum(len(part.encode("utf-8", "surrogatepass")) for part in (result.stdout, result.stderr))
        if not total > self.max_output_bytes:
            return result
''')
r("pipeline", "shell", '''            env = dict(self.env)
            expanded_assignments = {
                key: self._expand_vars(value, env) for key, value in spec.assignments.items()
            }
            env.update(expanded_assignments)
''', '''            base_env = dict(self.env)
            env = {**base_env, **{k: self._expand_vars(v, base_env) for k, v in spec.assignments.items()}}
''')
r("run-result", "shell", '''        if isinstance(result, CommandResult):
            return self._enforce_output_limit(result)
        if result is None:
            return self._enforce_output_limit(CommandResult())
        return self._enforce_output_limit(CommandResult(stdout=str(result)))
''', '''        if not isinstance(result, CommandResult):
            result = CommandResult() if result is None else CommandResult(stdout=str(result))
        return self._enforce_output_limit(result)
''')
r("cat", "shell", '''        blobs: list[str] = []
        for path in args:
            if path == "-":
                blobs.append(ctx.stdin if ctx else "")
                continue
            with self._maybe_search_context(path) as resolved:
                self._ensure_visible_path(resolved)
                blobs.append(self.vfs.read_file(resolved))
        return CommandResult(stdout="".join(blobs))
''', '''        typed = ctx.stdin if ctx else ""
        return CommandResult(
            stdout="".join(typed if path == "-" else self._read_from_path(path) for path in args)
        )
''')
r("match", "shell", '''                for idx, line in enumerate(lines, start=1):
                    matched = False
                    if regex:
                        if compiled and compiled.search(line):
                            matched = True
                    elif ignore_case:
                        if lowered is not None and lowered in line.lower():
                            matched = True
                    else:
                        if pattern in line:
                            matched = True
                    if matched:
                        prefix = f"{file_path}:{idx}:" if show_numbers else f"{file_path}:"
                        results.append(f"{prefix}{line}")
        return results
''', '''                found = self._search_text(
                    pattern, text, regex=regex, ignore_case=ignore_case, show_numbers=show_numbers
                )
                results.extend(f"{file_path}:{line}" for line in found)
        return results
''')
r("find", "shell", '''            for path, node in found:
                if type_filter:
                    is_dir = isinstance(node, VirtualDirectory)
                    if type_filter == "f" and is_dir:
                        continue
                    if type_filter == "d" and not is_dir:
                        continue

                if name_pattern is not None and not fnmatch.fnmatch(node.name, name_pattern):
                    continue

                results.append(str(path))
''', '''            kinds = {"f": VirtualFile, "d": VirtualDirectory, None: VirtualNode}
            wanted = kinds[type_filter]
            results += [
                str(path)
                for path, node in found
                if isinstance(node, wanted)
                and (name_pattern is None or fnmatch.fnmatchcase(node.name, name_pattern))
            ]
''')
r("stat", "shell", '''        if isinstance(node, VirtualFile):
            size = len(node.read(self.vfs))
            kind = "regular file"
        else:
            size = 0  # Directories do not have a serialized size in this VFS
            kind = "directory"
''', '''        size, kind = 0, "directory"
        if not isinstance(node, VirtualDirectory):
            size, kind = len(node.read(self.vfs)), "regular file"
''')
r("exec", "shell", '''        for segment in filter(None, (line.strip() for line in command.splitlines())):
            try:
''', '''        for raw_line in command.splitlines():
            segment = raw_line.strip()
            if not segment:
                continue
            try:
''')
r("mem-write", "adapters", '''        entry = self._entries.get(path)
        if entry and entry.version != version:
            raise ValueError("version mismatch")
        next_version = version + 1
        entry = StorageEntry(content=content, version=next_version)
        self._entries[path] = entry
        return StorageEntry(content=entry.content, version=entry.version)
''', '''        if path in self._entries and self._entries[path].version != version:
            raise ValueError("version mismatch")
        self._entries[path] = StorageEntry(content, version + 1)
        return self.read(path)
''')
r("fs-read", "adapters", '''        with target.open(encoding=self.encoding, errors="replace", newline="") as handle:
            return handle.read()
''', '''        return target.read_bytes().decode(self.encoding, errors="replace")
''')
r("fs-list", "adapters", '''        for path in self.root.rglob("*"):
            if not path.is_file()''', '''        for path in sorted(self.root.rglob("*")):
            if not path.is_file()''')
r("index", "search", '''            for line_no, line in enumerate(content.splitlines(), start=1):
                matched = False
                if query.regex:
                    if compiled and compiled.search(line):
                        matched = True
                elif query.ignore_case:
                    if lowered is not None and lowered in line.lower():
                        matched = True
                else:
                    if query.query in line:
                        matched = True
                if matched:
                    results.append(SearchResult(path=path, line_no=line_no, line_text=line))
''', '''            if compiled is not None:
                matches = lambda line: compiled.search(line) is not None  # noqa: E731
            elif query.ignore_case:
                matches = lambda line: lowered is not None and lowered in line.lower()  # noqa: E731
            else:
                matches = lambda line: query.query in line  # noqa: E731
            numbered = enumerate(content.splitlines(), start=1)
            results.extend(SearchResult(path, no, line) for no, line in numbered if matches(line))
''')
r("allows", "policies", '''        if policy.principals:
            if self.principals is None:
                return False
            if not (policy.principals & self.principals):
                return False
            return True
        if self.classifications is None:
            return True
        return policy.classification in self.classifications
''', '''        if not policy.principals:
            return self.classifications is None or policy.classification in self.classifications
        return not policy.principals.isdisjoint(self.principals or ())
''')
r("allows-node", "policies", '''        if not self.allows(node.policy):
            return False
        ancestor = node.parent
        while ancestor is not None:
            if not self.allows(ancestor.policy):
                return False
            ancestor = ancestor.parent
''', '''        current = node
        while current is not None:
            if not self.allows(current.policy):
                return False
            current = current.parent
''')
r("pyexec", "pyexec", '''        env: dict[str, Any] = dict(self._globals_template)
        if extra_globals:
            env.update(extra_globals)
        env["__builtins__"] = dict(self._builtins)
        stdout = io.StringIO()
        with contextlib.redirect_stdout(stdout):
            exec(compile(code, filename, "exec"), env, env)
        env.pop("__builtins__", None)
        return PythonExecutionResult(stdout=stdout.getvalue(), globals=env)
''', '''        env: dict[str, Any] = {
            **self._globals_template,
            **(extra_globals or {}),
            "__builtins__": dict(self._builtins),
        }
        program = compile(code, filename, "exec")
        with io.StringIO() as captured, contextlib.redirect_stdout(captured):
            exec(program, env)
            text = captured.getvalue()
        del env["__builtins__"]
        return PythonExecutionResult(text, env)
''')
r("node-path", "nodes", '''        segments = []
        node: VirtualNode | None = self
        while node and node.parent is not None:
            segments.append(node.name)
            node = node.parent
        return PurePosixPath("/" + "/".join(reversed(segments))) if segments else PurePosixPath("/")
''', '''        return self.parent.path() / self.name
''')
r("loader", "nodes", '''        provided_nodes = [
            instantiate_provided_node(name, provided, parent=self)
            for name, provided in snapshot.items()
            if name not in self.children
        ]
        for node in provided_nodes:
            self.add_child(node)
''', '''        fresh = {}
        for name, provided in snapshot.items():
            if name not in self.children:
                fresh[name] = instantiate_provided_node(name, provided, parent=self)
        self.children.update(fresh)
''')
r("emit-once", "vfs", '''        path = PurePosixPath(event.path)
        for prefix, hook in self._write_hooks:
            if self._path_matches_prefix(path, prefix):
                hook(event)

        self._emit_path_event(path, event_type, event.content)
''', '''        path = PurePosixPath(event.path)
        interested = (hook for prefix, hook in self._write_hooks if self._path_matches_prefix(path, prefix))
        for hook in interested:
            hook(event)
        self._emit_path_event(path, event_type, event.content)
''')
r("remove", "vfs", '''            names = list(node.children.keys())
            for child_name in names:
                child_node = node.children.get(child_name)
                if child_node is None:
                    continue
                self.remove(child_node.path(), recursive=True)
''', '''            for child_name in tuple(node.children):
                if child_name in node.children:
                    self.remove(node.path() / child_name, recursive=True)
''')
r("move-index", "vfs", '''        if isinstance(node, VirtualFile):
            self._remove_index_entry(original_path)
            self._index_file(node)
        else:
            self._rebuild_index()
        events = {
            path: self._write_event(file_node, append=False)
            for _, path, file_node in moved
            if self._is_hooked(path)
        }
''', '''        if isinstance(node, VirtualDirectory):
            self._rebuild_index()
        else:
            self._index_file(node)
            self._remove_index_entry(original_path)
        events = {}
        for _, path, file_node in moved:
            if self._is_hooked(path):
                events[path] = self._write_event(file_node, append=False)
''')
r("copy-index", "vfs", '''        if isinstance(clone, VirtualFile):
            self._index_file(clone)
        else:
            self._rebuild_index()
        events = [self._write_event''', '''        self._rebuild_index()
        events = [self._write_event''')
r("globs", "shell", '''            if any(ch in arg for ch in "*?[]"):
                matches = self.vfs.glob(as_pattern(arg), cwd=self.vfs.pwd(), view=self.view)
                if matches:
                    expanded.extend(matches)
                else:
                    expanded.append(unquote(arg))
            else:
                expanded.append(unquote(arg))
        return expanded
''', '''            matches = []
            if set(arg) & set("*?[]"):
                matches = self.vfs.glob(as_pattern(arg), cwd=self.vfs.pwd(), view=self.view)
            expanded += matches or [unquote(arg)]
        return expanded
''')
r("popen", "shell", '''                completed = subprocess.run(
                    mapped,
                    cwd=str(host_cwd),
                    input=None if stdin is None else stdin.encode("utf-8"),
                    capture_output=True,
                    check=False,
                    env=merged_env,
                )
''', '''                completed = self._call_host(mapped, str(host_cwd), stdin, merged_env)
''')
r("popen", "shell", '''    def _sandbox_to_host_path(self''', '''    @staticmethod
    def _call_host(words, where, stdin, env):
        from subprocess import PIPE, CompletedProcess, Popen

        with Popen(words, cwd=where, env=env, stdin=None if stdin is None else PIPE, stdout=PIPE, stderr=PIPE) as process:
            out, err = process.communicate(None if stdin is None else stdin.encode("utf-8"))
        return CompletedProcess(words, process.returncode, out, err)

    def _sandbox_to_host_path(self''')
r("sync-host", "shell", '''        for sandbox_path in sorted(host_dirs):
            self.vfs.mkdir(sandbox_path, parents=True, exist_ok=True)
        for sandbox_path, text in sorted(host_files.items()):
            if self.vfs.is_file(sandbox_path):
                node = self.vfs.get_node(sandbox_path)
                if isinstance(node, VirtualFile) and node.read(self.vfs) == text:
                    continue
            self.vfs.write_file(sandbox_path, text)
''', '''        for sandbox_path in sorted(host_dirs, key=lambda path: (len(path.parts), str(path))):
            if not self.vfs.is_dir(sandbox_path):
                self.vfs.mkdir(sandbox_path, parents=True)
        for sandbox_path in sorted(host_files, key=str, reverse=True):
            text = host_files[sandbox_path]
            known = self.vfs.get_node(sandbox_path) if self.vfs.exists(sandbox_path) else None
            unchanged = isinstance(known, VirtualFile) and known.read(self.vfs) == text
            if not unchanged:
                self.vfs.write_file(sandbox_path, text)
''')
r("fs-write", "adapters", '''        try:
            target.write_text(content, encoding=self.encoding, errors="replace", newline="")
        except Exception:
            self._undo_write(target, previous)
            raise
        mtime = target.stat().st_mtime_ns
        new_version = current + 1
        self._versions[self._key(target)] = new_version
        self._mtimes[self._key(target)] = mtime
        return StorageEntry(content=content, version=new_version)
''', '''        try:
            with target.open("w", encoding=self.encoding, errors="replace", newline="") as handle:
                handle.write(content)
        except Exception:
            self._undo_write(target, previous)
            raise
        key = self._key(target)
        self._mtimes[key] = target.stat().st_mtime_ns
        self._versions[key] = version + 1
        return StorageEntry(content, self._versions[key])
''')
r("fs-atomic", "adapters", '''        previous = (target.read_bytes(), target.stat()) if target.is_file() else None
''', '''        previous = None
        if target.is_file():
            previous = (target.read_bytes(), target.stat())
''')
r("parser", "shell_parser", '''    idx = 0
    while idx < len(tokens):
        token = tokens[idx]
        if token == "|":
            _finalize_command(commands, current)
            current = CommandSpec(name=None)
            idx += 1
            continue
        if token in ("<", ">", ">>"):
            if idx + 1 >= len(tokens):
                raise ValueError(f"Missing redirection target after {token}")
            target = tokens[idx + 1].translate(_UNMASK_OPERATORS)
            if token == "<":
                current.stdin = target
            else:
                current.stdout = target
                current.append = token == ">>"
            idx += 2
            continue
        token''', '''    rest = iter(tokens)
    for token in rest:
        if token == "|":
            _finalize_command(commands, current)
            current = CommandSpec(name=None)
            continue
        if token in {"<", ">", ">>"}:
            following = next(rest, None)
            if following is None:
                raise ValueError(f"Missing redirection target after {token}")
            target = following.translate(_UNMASK_OPERATORS)
            if token == "<":
                current.stdin = target
            else:
                current.stdout, current.append = target, token == ">>"
            continue
        token''')
r("parser", "shell_parser", '''        else:
            current.args.append(token)
        idx += 1
''', '''        else:
            current.args.append(token)
''')
r("remove-missing", "shell", '''        for file_path in existing_files:
            if file_path not in host_files:
                self.vfs.remove(str(file_path))
''', '''        for file_path in reversed(existing_files):
            if file_path in host_files:
                continue
            self.vfs.remove(file_path)
''')
r("host-lists", "shell", '''            parent = PurePosixPath("/").joinpath(*Path(top).relative_to(fs_root).parts)
            host_dirs.update(parent / name for name in dir_names)
''', '''            parent = PurePosixPath("/", Path(top).relative_to(fs_root).as_posix())
            for name in dir_names:
                host_dirs.add(parent.joinpath(name))
''')
r("clone", "vfs", '''            for child in node.iter_children(self):
                child_clone = self._clone_node(child, recursive=recursive)
                directory_clone.add_child(child_clone)
            return directory_clone
''', '''            clones = [self._clone_node(child, recursive=recursive) for child in node.iter_children(self)]
            for child_clone in clones:
                directory_clone.add_child(child_clone)
            return directory_clone
''')
r("transfer", "vfs", '''                    try:
                        entry = adapter.read(relative)
                    except FileNotFoundError:
                        continue
                    adapter.delete(relative)
''', '''                    entry = None
                    try:
                        entry = adapter.read(relative)
                    except FileNotFoundError:
                        pass
                    if entry is None:
                        continue
                    adapter.delete(relative)
''')
r("view-build", "policies", '''            frozenset(classifications) if classifications is not None else None,
''', '''            None if classifications is None else frozenset(list(classifications)),
''')
r("bool", "shell", '''        return value.lower() in {"1", "true", "yes", "on"}
''', '''        return value.casefold() in ("1", "true", "on", "yes")
''')
r("cli", "cli", '''    result = shell.exec(args.command)
    if result.stdout:
        sys.stdout.write(result.stdout)
    if result.stderr:
        sys.stderr.write(result.stderr)
    return result.exit_code
''', '''    result = shell.exec(args.command)
    for text, stream in ((result.stdout, sys.stdout), (result.stderr, sys.stderr)):
        if text:
            stream.write(text)
    return result.exit_code
''')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--checks", default="")
    ap.add_argument("--only", default="")
    ap.add_argument("--jobs", default="4")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    if a.list:
        print(*dict.fromkeys(n for n, *_ in R), sep="\n")
        return 0
    only = set(filter(None, a.only.split(",")))
    d = pathlib.Path(tempfile.mkdtemp(prefix="refac-"))
    bad = 0
    try:
        os.chmod(d, 0o777)
        repo = d / "repo"
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        for name, stem, old, new in R:
            if only and name not in only:
                continue
            f = repo / "sandfs" / f"{stem}.py"
            s = f.read_text()
            if s.count(old) != 1:
                print("cannot apply", name, s.count(old))
                bad = 1
                continue
            f.write_text(s.replace(old, new))
        (d / "t").mkdir()
        os.chmod(d / "t", 0o777)
        e = {**os.environ, "PYTHONPATH": str(repo), "PYTHONDONTWRITEBYTECODE": "1", "HOME": str(d / "t"), "TMPDIR": str(d / "t")}
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider"], cwd=repo, env=e, capture_output=True, text=True,
                           user=65534, group=65534, extra_groups=[])
        print("tests:", t.stdout.strip().splitlines()[-1])
        bad |= t.returncode != 0
        e = {**os.environ, "SANDFS_REPO": str(repo), "VERIF_OUT": str(d / "o"), "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8"}
        for c in filter(None, a.checks.split(",")) if a.checks else sorted(p.stem.upper() for p in (VERIF / "mon/props").glob("c[0-9][0-9].py")):
            x = subprocess.run([PY, str(VERIF / "check.py"), c, "--jobs", a.jobs, "--scale", a.scale, "--seed", a.seed], cwd=VERIF, env=e, capture_output=True, text=True)
            print(c, "quiet" if x.returncode == 0 else f"NOT QUIET ({x.returncode})\n{x.stdout[-2500:]}{x.stderr[-600:]}", flush=True)
            bad |= x.returncode != 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return int(bad)


sys.exit(main())
