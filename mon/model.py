"""RefFS: the executable reference model.

A plain hierarchical map with policies, versions, hook events, storage mounts, search and snapshots. It is written from the
property statements and the documentation; it shares no code with sandfs.
"""

from __future__ import annotations

import copy as copy_mod
import re
import sys


class Refused(Exception):
    """The operation has to be refused, leaving everything as it was."""


class RefusedPartly(Refused):
    """A recursive removal that meets protected nodes: may stop part way."""


class Undefined(Exception):
    """The statements say nothing about this situation."""


class Pol:
    __slots__ = ("readable", "writable", "append_only", "classification", "principals")

    def __init__(self, readable=True, writable=True, append_only=False, classification="public", principals=()):
        self.readable, self.writable, self.append_only = bool(readable), bool(writable), bool(append_only)
        self.classification, self.principals = classification, frozenset(principals)

    def key(self):
        return (self.readable, self.writable, self.append_only, self.classification, tuple(sorted(self.principals)))

    def clone(self):
        return Pol(*self.key())

    def spec(self):
        return dict(zip(self.__slots__, [*self.key()[:4], sorted(self.principals)]))


class Prov:
    """A content provider known to both sides: text depends on the path and metadata it is asked with."""

    def __init__(self, text: str, *, path_dependent: bool = False, fail: bool = False) -> None:
        self.text, self.path_dependent, self.fail = text, path_dependent, fail
        self.calls: list[tuple[str, dict, object]] = []

    def render(self, path: str, metadata: dict) -> str:
        if not self.path_dependent:
            return self.text
        return f"{self.text}|{path}|{sorted(metadata.items(), key=str)}"

    def __call__(self, ctx):
        self.calls.append((str(ctx.path), dict(ctx.metadata), ctx.vfs))
        if self.fail:
            raise RuntimeError("provider failure injected")
        return self.render(str(ctx.path), dict(ctx.metadata))


class MNode:
    def __init__(self, kind: str, name: str, parent: "MNode | None" = None) -> None:
        self.kind, self.name, self.parent = kind, name, parent
        self.children: dict[str, MNode] = {}
        self.content = ""
        self.prov: Prov | None = None
        self.meta: dict = {}
        self.pol = Pol()
        self.version = 0
        self.plain = True  # created and only changed by writes, so 'version > 0' means previously written

    def parts(self) -> tuple[str, ...]:
        parts: list[str] = []
        node = self
        while node.parent is not None:
            parts.append(node.name)
            node = node.parent
        return tuple(reversed(parts))

    def path(self) -> str:
        return "/" + "/".join(self.parts())

    def read(self) -> str:
        if self.prov is None:
            return self.content
        if self.prov.fail:
            raise Refused("provider fails")
        return self.prov.render(self.path(), self.meta)

    def walk(self):
        yield self
        for child in list(self.children.values()):
            yield from child.walk()

    def files(self):
        return [node for node in self.walk() if node.kind == "f"]


def pstr(parts) -> str:
    return "/" + "/".join(parts)


def is_below(parts, prefix) -> bool:
    return tuple(parts[: len(prefix)]) == tuple(prefix)


class MStore:
    """Model of a storage adapter's contents."""

    def __init__(self, kind: str, initial: dict[str, str]) -> None:
        self.kind = kind  # "mem" or "dir"
        self.entries: dict[str, tuple[str, int]] = {rel: (text, 0) for rel, text in initial.items()}
        self.pending: set[str] = set()  # directory entries changed on disk since the adapter last looked
        self.burnt: set[str] = set()  # entries deleted behind the adapter's back: what version they would come back with is open
        self.seen: set[str] = set()  # directory entries the adapter has looked at (it counts changes from then on)

    def version(self, rel: str) -> int | None:
        entry = self.entries.get(rel)
        return None if entry is None else entry[1]

    def can_write(self, rel: str, version: int) -> bool:
        self.pending.discard(rel)
        self.seen.add(rel)
        current = self.version(rel)
        if current is None and self.kind == "dir":
            steps = rel.split("/")
            if any(other.startswith(rel + "/") for other in self.entries) or any(
                    "/".join(steps[:n]) in self.entries for n in range(1, len(steps))):
                raise Undefined("an entry shadowed by a nested mount occupies the place on disk")
        if current is None:
            return True if self.kind == "mem" else version == 0
        return current == version

    def write(self, rel: str, text: str, version: int) -> int:
        if not self.can_write(rel, version):
            raise Refused("storage version conflict")
        self.entries[rel] = (text, version + 1)
        self.burnt.discard(rel)
        return version + 1

    def external(self, rel: str, text: str) -> None:
        """A change behind the sandbox's back."""
        if rel in self.burnt and self.kind == "dir":
            raise Undefined("an entry deleted on disk comes back")
        current = self.version(rel)
        if current is None:
            self.entries[rel] = (text, 1 if self.kind == "mem" else 0)
        elif rel in self.pending or (self.kind == "dir" and rel not in self.seen):
            self.entries[rel] = (text, current)
        else:
            self.entries[rel] = (text, current + 1)
            if self.kind == "dir":
                self.pending.add(rel)

    def external_delete(self, rel: str) -> None:
        self.entries.pop(rel, None)
        self.pending.discard(rel)
        self.seen.discard(rel)
        self.burnt.add(rel)

    def looked(self) -> None:
        """The adapter listed everything."""
        self.pending.clear()
        self.seen |= set(self.entries)

    def delete(self, rel: str) -> None:
        if self.kind == "dir" and any(other.startswith(rel + "/") for other in self.entries):
            raise Undefined("a directory on disk where a file is shown (after a restore)")
        self.pending.discard(rel)
        self.seen.discard(rel)
        self.entries.pop(rel, None)


def match_line(line: str, query: str, regex: bool, ignore_case: bool) -> bool:
    if regex:
        flags = re.MULTILINE | (re.IGNORECASE if ignore_case else 0)
        return re.search(query, line, flags) is not None
    if ignore_case:
        return query.lower() in line.lower()
    return query in line


class RefFS:
    def __init__(self) -> None:
        self.root = MNode("d", "")
        self.cwd = self.root
        self.cwd_detached = False
        self.mounts: dict[tuple[str, ...], MStore] = {}
        self.events: list[tuple] = []  # of the operation in progress
        self.search_prefix: tuple[str, ...] | None = None

    # -- resolution ---------------------------------------------------
    def lex(self, text: str) -> tuple[str, ...]:
        text = str(text)
        parts = [] if text.startswith("/") else list(self.cwd.parts())
        for part in text.split("/"):
            if part in ("", "."):
                continue
            if part == "..":
                if parts:
                    parts.pop()
            else:
                parts.append(part)
        return tuple(parts)

    def find(self, parts) -> MNode | None:
        node = self.root
        for part in parts:
            if node.kind != "d" or part not in node.children:
                return None
            node = node.children[part]
        return node

    def need(self, parts) -> MNode:
        node = self.find(parts)
        if node is None:
            raise Refused("missing")
        return node

    def anchor(self, parts) -> tuple[MNode, int]:
        """Deepest existing node towards parts and how many parts it covers."""
        node, depth = self.root, 0
        for part in parts:
            if node.kind != "d":
                raise Refused("file used as a directory")
            if part not in node.children:
                return node, depth
            node = node.children[part]
            depth += 1
        return node, depth

    # -- storage ------------------------------------------------------
    def mount_of(self, parts) -> tuple[tuple[str, ...], MStore] | None:
        best = None
        for prefix, store in self.mounts.items():
            if is_below(parts, prefix) and (best is None or len(prefix) > len(best[0])):
                best = (prefix, store)
        if best is not None and tuple(parts) == best[0]:
            raise Undefined("file at a mount point")
        return best

    def store_of(self, parts) -> tuple[MStore, str] | None:
        mount = self.mount_of(parts)
        return None if mount is None else (mount[1], "/".join(parts[len(mount[0]):]))

    # -- permission helpers --------------------------------------------
    @staticmethod
    def may_write(node: MNode, append: bool = False) -> None:
        if not node.pol.writable:
            raise Refused("read-only")
        if node.pol.append_only and not append:
            raise Refused("append-only")

    # -- operations -----------------------------------------------------
    def mkdir(self, path, parents=False, exist_ok=False):
        parts = self.lex(path)
        if not parts:
            return
        node, depth = self.anchor(parts)
        if depth == len(parts):
            if node.kind != "d":
                raise Refused("is a file")
            if not exist_ok:
                raise Refused("exists")
            return
        if node.kind != "d":
            raise Refused("file used as a directory")
        self.may_write(node)
        if depth < len(parts) - 1 and not parents:
            raise Refused("missing parent")
        for part in parts[depth:]:
            child = MNode("d", part, node)
            node.children[part] = child
            node = child

    def _make_file(self, parts) -> MNode:
        node, depth = self.anchor(parts)
        for part in parts[depth:-1]:
            child = MNode("d", part, node)
            node.children[part] = child
            node = child
        child = MNode("f", parts[-1], node)
        node.children[parts[-1]] = child
        return child

    def write(self, path, data, append=False, expected=None):
        parts = self.lex(path)
        if not parts:
            raise Refused("root")
        node, depth = self.anchor(parts)
        created = depth < len(parts)
        if created:
            if node.kind != "d":
                raise Refused("file used as a directory")
            self.may_write(node, append=True)
            if expected:
                raise Refused("version")
            old_version, text = 0, data
        else:
            if node.kind != "f":
                raise Refused("is a directory")
            self.may_write(node, append=append)
            if expected is not None and expected != node.version:
                raise Refused("version")
            old_version = node.version
            text = node.read() + data if append else data
        slot = self.store_of(parts)
        if slot is not None:
            slot[0].write(slot[1], text, old_version)
        was_plain = True
        if created:
            node = self._make_file(parts)
        else:
            was_plain = node.plain
        node.content, node.prov = text, None
        node.version = old_version + 1
        node.plain = True
        if created:
            kind = "create"
        elif old_version > 0 and was_plain:
            kind = "update"
        else:
            kind = None
        self._wrote(node, append, kind)

    def _wrote(self, node, append, kind):
        self.events.append(("w", node.path(), node.content if node.prov is None else node.read(), node.version, append))
        self.events.append(("p", node.path(), kind, node.content if node.prov is None else node.read()))

    def touch(self, path):
        parts = self.lex(path)
        if not parts:
            raise Refused("root")
        node, depth = self.anchor(parts)
        if depth < len(parts):
            if node.kind != "d":
                raise Refused("file used as a directory")
            self.may_write(node, append=True)
            self._make_file(parts)
            return
        if node.kind != "f":
            raise Refused("is a directory")
        self.may_write(node, append=True)

    def removable(self, node: MNode) -> bool:
        try:
            self.may_write(node)
            self.may_write(node.parent)
        except Refused:
            return False
        return all(self.removable(child) for child in node.children.values())

    def remove(self, path, recursive=False):
        parts = self.lex(path)
        if not parts:
            raise Refused("root")
        node = self.need(parts)
        self.may_write(node)
        self.may_write(node.parent)
        if node.kind == "d" and node.children:
            if not recursive:
                raise Refused("not empty")
            if not self.removable(node):
                raise RefusedPartly("protected nodes below")
        self.drop(node)

    def drop(self, node: MNode) -> None:
        for child in list(node.children.values()):
            self.drop(child)
        if node.kind == "f":
            slot = self.store_of(node.parts())
            if slot is not None:
                slot[0].delete(slot[1])
            self.events.append(("p", node.path(), "delete", None))
        self._detach(node)

    def _detach(self, node: MNode) -> None:
        probe = self.cwd
        while probe is not None:
            if probe is node:
                self.cwd_detached = True
            probe = probe.parent
        del node.parent.children[node.name]

    def place(self, node: MNode, target) -> tuple[MNode, str, MNode | None]:
        """Destination directory, name and replaced file of a move or copy."""
        parts = self.lex(target)
        dest = self.find(parts)
        if dest is None:
            parent = self.need(parts[:-1])
            if parent.kind != "d":
                raise Refused("destination parent is a file")
            self.may_write(parent)
            return parent, parts[-1], None
        if dest.kind == "d":
            self.may_write(dest)
            return dest, node.name, None
        return dest.parent, dest.name, dest

    def move(self, source, target):
        parts = self.lex(source)
        if not parts:
            raise Refused("root")
        node = self.need(parts)
        self.may_write(node)
        self.may_write(node.parent)
        parent, name, replaced = self.place(node, target)
        if replaced is not None:
            raise Refused("destination exists")
        if node.kind == "d" and is_below(parent.parts(), parts):
            raise Refused("into itself")
        if parent is node.parent and name == node.name:
            return
        if name in parent.children:
            raise Refused("name taken")
        base = parent.parts() + (name,)
        moves = []
        for file_node in node.files():
            old = file_node.parts()
            moves.append((file_node, old, base + old[len(parts):]))
        if self.cwd_detached and is_below(self.cwd.parts(), parts):
            raise Undefined("removed current directory below a moved one")
        stored = []
        for file_node, _, new in moves:
            slot = self.store_of(new)
            if slot is not None:
                text = file_node.read()
                if not slot[0].can_write(slot[1], 0):
                    raise Refused("storage conflict")
                stored.append((slot, text, file_node))
            elif file_node.prov is not None and file_node.prov.fail:
                raise Undefined("moving a file whose provider fails")
        vacated = [self.store_of(old) for _, old, _ in moves]
        for slot, text, file_node in stored:
            file_node.version = slot[0].write(slot[1], text, 0)
        for slot in vacated:
            if slot is not None:
                slot[0].delete(slot[1])
        olds = [(file_node, pstr(old)) for file_node, old, _ in moves]
        del node.parent.children[node.name]
        node.name, node.parent = name, parent
        parent.children[name] = node
        for file_node, old in olds:
            self.events.append(("p", old, "delete", None))
            self._wrote(file_node, False, "create")

    def _clone(self, node: MNode) -> MNode:
        twin = MNode(node.kind, node.name)
        twin.meta, twin.pol = dict(node.meta), node.pol.clone()
        if node.kind == "f":
            twin.content = node.read()
        for child in node.children.values():
            child_twin = self._clone(child)
            child_twin.parent = twin
            twin.children[child.name] = child_twin
        return twin

    def copy(self, source, target, recursive=False):
        parts = self.lex(source)
        node = self.need(parts)
        if node.kind == "d" and not recursive:
            raise Refused("is a directory")
        if not node.pol.readable:
            raise Refused("unreadable")
        parent, name, replaced = self.place(node, target)
        if replaced is not None:
            if node.kind == "d":
                raise Refused("directory over file")
            self.may_write(parent)
            self.may_write(replaced)
        base = parent.parts() + ((name,) if name else ())
        if node.kind == "d" and is_below(base, parts):
            raise Refused("into itself")
        clone = self._clone(node)
        if replaced is None and name in parent.children:
            raise Refused("name taken")
        clone.name, clone.parent = name, parent
        previous = replaced.version if replaced is not None else 0
        copied = clone.files()
        stored = []
        for file_node in copied:
            slot = self.store_of(file_node.parts())
            if slot is not None:
                if not slot[0].can_write(slot[1], previous):
                    raise Refused("storage conflict")
                stored.append((slot, file_node))
        for slot, file_node in stored:
            slot[0].write(slot[1], file_node.content, previous)
        if replaced is not None:
            kind = "update" if replaced.version > 0 and replaced.plain else None
        else:
            kind = "create"
        parent.children[name] = clone
        for file_node in copied:
            file_node.version = previous + 1
            self._wrote(file_node, False, kind)

    def cd(self, path):
        node = self.need(self.lex(path))
        if node.kind != "d":
            raise Refused("not a directory")
        if not node.pol.readable:
            raise Refused("unreadable")
        self.cwd = node
        self.cwd_detached = False

    def set_policy(self, path, pol: Pol):
        self.need(self.lex(path)).pol = pol

    def set_meta(self, path, meta: dict):
        self.need(self.lex(path)).meta.update(meta)

    def mount_file(self, path, prov: Prov, meta=None):
        parts = self.lex(path)
        if not parts:
            raise Refused("root")
        node, depth = self.anchor(parts)
        if depth < len(parts):
            if node.kind != "d":
                raise Refused("file used as a directory")
            node = self._make_file(parts)
        elif node.kind != "f":
            raise Refused("is a directory")
        node.prov = prov
        node.plain = False
        node.meta.update(meta or {})

    # -- storage mounts ---------------------------------------------------
    def mount_storage(self, path, store: MStore, pol: Pol | None = None):
        parts = self.lex(path)
        if not parts:
            raise Undefined("mount at the root")
        self.mkdir(pstr(parts), parents=True, exist_ok=True)
        self._load(parts, store)
        if pol is not None:
            self.need(parts).pol = pol
        self.mounts[parts] = store

    def sync(self, path):
        parts = self.lex(path)
        if parts not in self.mounts:
            raise Refused("no mount")
        if self.need(parts).kind != "d":
            raise Refused("mount point is a file")
        self._load(parts, self.mounts[parts])

    def _load(self, prefix, store) -> None:
        layers = [(prefix, store)]
        nested = [(p, s) for p, s in self.mounts.items() if p != prefix and is_below(p, prefix)]
        layers += sorted(nested, key=lambda item: len(item[0]))
        known = {}
        top = self.need(prefix)
        for node in top.walk():
            if node is not top:
                known[node.parts()] = node
                if node is self.cwd:
                    self.cwd_detached = True
        for where, layer in layers:
            node, depth = self.anchor(where)
            if node.kind != "d":
                raise Undefined("nested mount below a stored file")
            for part in where[depth:]:
                child = MNode("d", part, node)
                node.children[part] = child
                node = child
            node.children.clear()
            layer.looked()
            for rel, (text, version) in layer.entries.items():
                parts = where + tuple(rel.split("/"))
                spot, depth = self.anchor(parts)
                if spot.kind != "d" or depth == len(parts):
                    raise Undefined("stored entries collide")
                made = self._make_file(parts)
                made.content, made.version = text, version
        for node in top.walk():
            former = known.get(node.parts())
            if former is not None and node is not top and node is not former:
                if former.kind != node.kind:
                    raise Undefined("kind changed across a sync")
                node.pol, node.meta = former.pol, former.meta
                if former is self.cwd and node.kind == "d":
                    self.cwd, self.cwd_detached = node, False

    # -- snapshots ----------------------------------------------------------
    def snapshot(self):
        for node in self.root.walk():
            if node.kind == "f" and node.prov is not None and node.prov.fail:
                raise Refused("provider fails")
        skip = self.search_prefix

        def freeze(node, parent):
            twin = MNode(node.kind, node.name, parent)
            twin.meta, twin.pol = dict(node.meta), node.pol.clone()
            twin.version, twin.plain = node.version, node.plain
            if node.kind == "f":
                twin.content = node.read()
            for child in node.children.values():
                twin.children[child.name] = freeze(child, twin)
            return twin

        del skip
        return {"root": freeze(self.root, None), "cwd": self.cwd.parts(), "mounts": dict(self.mounts)}

    def restore(self, snap):
        holder = clone(snap["root"])
        self.root = holder
        self.mounts = dict(snap["mounts"])
        node = self.find(snap["cwd"])
        self.cwd = node if node is not None and node.kind == "d" else self.root
        self.cwd_detached = False

    # -- search ---------------------------------------------------------------
    def search(self, query, regex=False, ignore_case=False, prefix="/", allow=lambda node: True):
        base = self.lex(prefix)
        top = self.find(base)
        if top is None or not top.pol.readable:
            return []
        found = []
        for node in top.files():
            parts = node.parts()
            if self.search_prefix is not None and is_below(parts, self.search_prefix):
                continue
            if not node.pol.readable or not allow(node):
                continue
            for number, line in enumerate(node.read().splitlines(), start=1):
                if match_line(line, query, regex, ignore_case):
                    found.append((pstr(parts), number, line))
        return found

    # -- observation -------------------------------------------------------------
    def digest(self) -> dict[str, tuple]:
        state = {}
        for node in self.root.walk():
            if node.kind == "f":
                try:
                    text = node.read()
                except Refused:
                    text = None
            else:
                text = None
            state[node.path()] = (node.kind, text, node.pol.key(), tuple(sorted(node.meta.items(), key=str)),
                                  node.version if node.kind == "f" else 0)
        return state

    def tree_text(self, top: MNode, allow=lambda node: True) -> str:
        lines = [top.path()]

        def render(node, indent):
            kids = sorted((c for c in node.children.values() if allow(c)), key=lambda c: (c.kind != "d", c.name))
            for position, child in enumerate(kids):
                last = position == len(kids) - 1
                lines.append(f"{indent}{'└──' if last else '├──'} {child.name}{'/' if child.kind == 'd' else ''}")
                if child.kind == "d":
                    render(child, indent + ("    " if last else "│   "))

        render(top, "")
        return "\n".join(lines)


def clone(value, memo=None):
    """deepcopy for trees of any depth."""
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(max(limit, 20000))
    try:
        return copy_mod.deepcopy(value, memo)
    finally:
        sys.setrecursionlimit(limit)
