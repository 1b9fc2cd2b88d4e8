From 97c662f1e5c97e4e557b6790f3acb310353f3bed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:24:47 +0000
Subject: [PATCH 01/57] fix: refuse a move onto a taken name before detaching
 the source

Moving into a directory that already held an entry of that name removed the
source from its parent and then failed, losing the file.
---
 sandfs/vfs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 3ee64e4..5c6ed31 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -622,6 +622,10 @@ class VirtualFileSystem:
         if dest_parent is node:
             raise InvalidOperation("Cannot move a node into itself")
 
+        dest_parent.ensure_loaded(self)
+        if dest_name in dest_parent.children:
+            raise NodeExists(f"Node {dest_name} already exists in {dest_parent_path}")
+
         parent.remove_child(node.name)
         node.name = dest_name
         dest_parent.add_child(node)
-- 
2.43.0


From b5e13d7fbd4e77ffd0f73cd479b82fe39811bee6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:24:48 +0000
Subject: [PATCH 02/57] fix: copy validates and clones before replacing the
 destination

Copying a directory onto a file inside it, or from a failing provider,
removed the destination file and then raised; a directory could also
silently replace a file.
---
 sandfs/vfs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 5c6ed31..bbd2b82 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -651,6 +651,7 @@ class VirtualFileSystem:
         dest_path = self._normalize(target)
         dest_parent: VirtualDirectory
         dest_name: str
+        replaced: VirtualNode | None = None
 
         try:
             dest_node = self._resolve_node(dest_path)
@@ -669,9 +670,11 @@ class VirtualFileSystem:
                 parent_node = dest_node.parent
                 if parent_node is None:
                     raise InvalidOperation("Cannot overwrite root directory")
+                if isinstance(node, VirtualDirectory):
+                    raise InvalidOperation(f"Cannot overwrite file {dest_path} with a directory")
                 self._ensure_write_allowed(parent_node)
                 self._ensure_write_allowed(dest_node)
-                parent_node.remove_child(dest_node.name)
+                replaced = dest_node
                 dest_name = dest_node.name
                 dest_parent = parent_node
 
@@ -686,6 +689,9 @@ class VirtualFileSystem:
 
         clone = self._clone_node(node, recursive=recursive)
         clone.name = dest_name
+        if replaced is not None:
+            dest_parent.remove_child(replaced.name)
+        dest_parent.ensure_loaded(self)
         dest_parent.add_child(clone)
         if isinstance(clone, VirtualFile):
             self._index_file(clone)
-- 
2.43.0


From 178598fa869710806e0e05442cc52e75077c5fc4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:25:13 +0000
Subject: [PATCH 03/57] fix: honour read-only directories when creating files
 and parents

write_file and touch created files in read-only directories, mkdir -p created
directories below them, a version-refused write left an empty file behind, and
mkdir -p of an existing directory failed under a read-only parent, which broke
every host command in such a tree.
---
 sandfs/vfs.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index bbd2b82..e195048 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -148,6 +148,18 @@ class VirtualFileSystem:
             raise InvalidOperation(f"{node.path()} is not a file")
         return node
 
+    def _nearest_existing(self, target: PurePosixPath) -> tuple[VirtualNode, str | None]:
+        """Return the deepest existing node towards target and the first missing name."""
+        current: VirtualNode = self.root
+        for part in self._iterate_parts(target):
+            if not isinstance(current, VirtualDirectory):
+                raise InvalidOperation(f"{current.path()} is not a directory")
+            try:
+                current = current.get_child(part, self)
+            except NodeNotFound:
+                return current, part
+        return current, None
+
     def _ensure_read_allowed(self, node: VirtualNode) -> None:
         if not node.policy.readable:
             raise InvalidOperation(f"{node.path()} is not readable")
@@ -488,8 +500,10 @@ class VirtualFileSystem:
         normalized = self._normalize(path)
         if normalized == PurePosixPath("/"):
             return self.root
+        anchor, missing = self._nearest_existing(normalized)
+        if missing is not None:
+            self._ensure_write_allowed(anchor)
         parent = self._resolve_dir(normalized.parent or PurePosixPath("/"), create=parents)
-        self._ensure_write_allowed(parent)
         name = normalized.name
         if not name:
             raise InvalidOperation("Directory name missing")
@@ -513,6 +527,13 @@ class VirtualFileSystem:
         append: bool = False,
         expected_version: int | None = None,
     ) -> VirtualFile:
+        anchor, missing = self._nearest_existing(self._normalize(path))
+        if missing is not None:
+            self._ensure_write_allowed(anchor, append=True)
+            if expected_version:
+                raise InvalidOperation(
+                    f"Version mismatch for {path}: expected {expected_version}, current 0"
+                )
         node = self._ensure_file(path, create=True)
         self._ensure_write_allowed(node, append=append)
         self._check_version(node, expected_version)
@@ -541,6 +562,9 @@ class VirtualFileSystem:
         return node.read(self)
 
     def touch(self, path: str | PurePosixPath) -> VirtualFile:
+        anchor, missing = self._nearest_existing(self._normalize(path))
+        if missing is not None:
+            self._ensure_write_allowed(anchor, append=True)
         node = self._ensure_file(path, create=True)
         self._ensure_write_allowed(node, append=True)
         node.modified_at = time.time()
-- 
2.43.0


From b2aee47c4d552179ef0e207530253ff1b43d38a3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:25:14 +0000
Subject: [PATCH 04/57] fix: a write refused by storage no longer sticks in the
 tree

On a storage conflict or storage error the sandbox kept showing the rejected
content (and the bumped version or the new, never stored file).
---
 sandfs/vfs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index e195048..0afb39e 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -242,7 +242,6 @@ class VirtualFileSystem:
         try:
             adapter.write(relative, node.read(self), version=previous_version)
         except ValueError as exc:
-            node.version = previous_version
             raise InvalidOperation(f"Storage conflict for {node.path()}") from exc
 
     def _delete_storage_entry(self, node: VirtualFile) -> None:
@@ -538,10 +537,17 @@ class VirtualFileSystem:
         self._ensure_write_allowed(node, append=append)
         self._check_version(node, expected_version)
         previous_version = node.version
+        saved = dict(vars(node))
         node.write(data, append=append)
         node.version += 1
         node.modified_at = time.time()
-        self._persist_storage(node, previous_version)
+        try:
+            self._persist_storage(node, previous_version)
+        except Exception:
+            vars(node).update(saved)
+            if missing is not None and isinstance(anchor, VirtualDirectory):
+                anchor.remove_child(missing)
+            raise
         self._index_file(node)
         event_type = "create" if previous_version == 0 else "update"
         self._emit_write_event(node, append=append, event_type=event_type)
-- 
2.43.0


From 2b528e9b4324d2b48525eeae4139fc94c409de04 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:25:26 +0000
Subject: [PATCH 05/57] fix: appending to a dynamic file keeps its content

append dropped the provider and extended the empty (or stale) static text.
---
 sandfs/vfs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 0afb39e..ecf4d4c 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -538,6 +538,9 @@ class VirtualFileSystem:
         self._check_version(node, expected_version)
         previous_version = node.version
         saved = dict(vars(node))
+        if append:
+            # A dynamic file is extended from what a read returns, not from stale static text.
+            node.write(node.read(self))
         node.write(data, append=append)
         node.version += 1
         node.modified_at = time.time()
-- 
2.43.0


From 1f3877d343b7a9667f7cadcda68b26b4807825a6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:25:27 +0000
Subject: [PATCH 06/57] fix: a removal refused by storage keeps the file

The file left the tree before the adapter was asked to delete it.
---
 sandfs/vfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index ecf4d4c..bad1ac3 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -600,9 +600,10 @@ class VirtualFileSystem:
                 if child_node is None:
                     continue
                 self.remove(child_node.path(), recursive=True)
-        parent.remove_child(node.name)
         if isinstance(node, VirtualFile):
             self._delete_storage_entry(node)
+        parent.remove_child(node.name)
+        if isinstance(node, VirtualFile):
             self._remove_index_entry(node.path())
             self._emit_path_event(node.path(), "delete", None)
 
-- 
2.43.0


From 743add62b22d8285f85539d1a13f0c85f82385e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:26:35 +0000
Subject: [PATCH 07/57] fix: move and copy reach storage mounts, hooks and
 versions

Files moved or copied into, within or out of a storage mount never reached the
adapter (and came back or vanished on the next sync), no hook heard of either
operation, and copying over a file reset its version to zero.
---
 sandfs/vfs.py | 103 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 101 insertions(+), 2 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index bad1ac3..22a07ab 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -11,7 +11,7 @@ from collections.abc import Iterable, Iterator, Mapping, MutableMapping
 from dataclasses import dataclass
 from pathlib import Path, PurePosixPath
 
-from .adapters import StorageAdapter
+from .adapters import StorageAdapter, StorageEntry
 from .exceptions import InvalidOperation, NodeExists, NodeNotFound
 from .hooks import WriteEvent, WriteHook
 from .integrations import PathEvent, PathHook
@@ -252,6 +252,70 @@ class VirtualFileSystem:
         relative = self._relative_storage_path(node.path(), prefix)
         adapter.delete(relative)
 
+    def _files_below(
+        self, node: VirtualNode, base: PurePosixPath
+    ) -> list[tuple[PurePosixPath, VirtualFile]]:
+        """List the files of a subtree with the paths they have when it lies at base."""
+        if isinstance(node, VirtualFile):
+            return [(base, node)]
+        files: list[tuple[PurePosixPath, VirtualFile]] = []
+        if isinstance(node, VirtualDirectory):
+            for child in node.iter_children(self):
+                files.extend(self._files_below(child, base.joinpath(child.name)))
+        return files
+
+    def _transfer_storage(
+        self,
+        placed: Iterable[tuple[PurePosixPath, VirtualFile]],
+        vacated: Iterable[PurePosixPath] = (),
+        *,
+        previous_version: int = 0,
+    ) -> dict[PurePosixPath, int]:
+        """Store files at new paths and drop old entries, undoing all of it on failure.
+
+        Returns the version storage assigned to each stored path.
+        """
+        versions: dict[PurePosixPath, int] = {}
+        undo: list[tuple[StorageAdapter, str, StorageEntry | None]] = []
+        try:
+            for path, node in placed:
+                mount = self._find_storage_mount(path)
+                if mount is not None:
+                    prefix, adapter = mount
+                    relative = self._relative_storage_path(path, prefix)
+                    entry = adapter.write(relative, node.read(self), version=previous_version)
+                    undo.append((adapter, relative, None))
+                    versions[path] = entry.version
+            for path in vacated:
+                mount = self._find_storage_mount(path)
+                if mount is not None:
+                    prefix, adapter = mount
+                    relative = self._relative_storage_path(path, prefix)
+                    try:
+                        entry = adapter.read(relative)
+                    except FileNotFoundError:
+                        continue
+                    adapter.delete(relative)
+                    undo.append((adapter, relative, entry))
+        except Exception as exc:
+            for adapter, relative, removed in reversed(undo):
+                if removed is None:
+                    adapter.delete(relative)
+                    continue
+                try:
+                    adapter.write(relative, removed.content, version=removed.version - 1)
+                except ValueError:
+                    adapter.write(relative, removed.content, version=0)
+            if isinstance(exc, ValueError):
+                raise InvalidOperation(f"Storage conflict: {exc}") from exc
+            raise
+        return versions
+
+    def _is_hooked(self, path: PurePosixPath) -> bool:
+        prefixes = [prefix for prefix, _ in self._write_hooks]
+        prefixes.extend(prefix for prefix, _ in self._path_hooks)
+        return any(self._path_matches_prefix(path, prefix) for prefix in prefixes)
+
     def _load_storage_mount(self, prefix: PurePosixPath, adapter: StorageAdapter) -> None:
         directory = self._resolve_dir(prefix)
         directory.children.clear()
@@ -660,14 +724,36 @@ class VirtualFileSystem:
         if dest_name in dest_parent.children:
             raise NodeExists(f"Node {dest_name} already exists in {dest_parent_path}")
 
+        moved: list[tuple[PurePosixPath, PurePosixPath, VirtualFile]] = []
+        versions: dict[PurePosixPath, int] = {}
+        if self._storage_mounts or self._write_hooks or self._path_hooks:
+            new_path = dest_parent_path.joinpath(dest_name)
+            moved = [
+                (original_path.joinpath(path.relative_to(new_path)), path, file_node)
+                for path, file_node in self._files_below(node, new_path)
+            ]
+            for _, path, file_node in moved:
+                if self._is_hooked(path):
+                    file_node.read(self)  # a failing provider must fail the move up front
+            versions = self._transfer_storage(
+                [(path, file_node) for _, path, file_node in moved],
+                [old_path for old_path, _, _ in moved],
+            )
+
         parent.remove_child(node.name)
         node.name = dest_name
         dest_parent.add_child(node)
+        for _, path, file_node in moved:
+            file_node.version = versions.get(path, file_node.version)
         if isinstance(node, VirtualFile):
             self._remove_index_entry(original_path)
             self._index_file(node)
         else:
             self._rebuild_index()
+        for old_path, path, file_node in moved:
+            self._emit_path_event(old_path, "delete", None)
+            if self._is_hooked(path):
+                self._emit_write_event(file_node, append=False, event_type="create")
 
     def copy(
         self,
@@ -723,14 +809,27 @@ class VirtualFileSystem:
 
         clone = self._clone_node(node, recursive=recursive)
         clone.name = dest_name
+        dest_parent.ensure_loaded(self)
+        if replaced is None and dest_name in dest_parent.children:
+            raise NodeExists(f"Node {dest_name} already exists in {dest_parent.path()}")
+        previous_version = replaced.version if replaced is not None else 0
+        copied = self._files_below(clone, dest_parent.path().joinpath(dest_name))
+        versions = self._transfer_storage(copied, previous_version=previous_version)
         if replaced is not None:
             dest_parent.remove_child(replaced.name)
-        dest_parent.ensure_loaded(self)
         dest_parent.add_child(clone)
+        for path, file_node in copied:
+            file_node.version = versions.get(path, previous_version + 1)
         if isinstance(clone, VirtualFile):
             self._index_file(clone)
         else:
             self._rebuild_index()
+        for _, file_node in copied:
+            self._emit_write_event(
+                file_node,
+                append=False,
+                event_type="create" if replaced is None else "update",
+            )
 
     def _clone_node(self, node: VirtualNode, *, recursive: bool) -> VirtualNode:
         if isinstance(node, VirtualFile):
-- 
2.43.0


From ec8d3ea5787913183ef26608e25ffdadb1f385c0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:27:05 +0000
Subject: [PATCH 08/57] fix: restore works with read-only directories, a
 removed cwd and search views

Restoring a snapshot with a directory below a read-only one raised half way
and left a truncated tree, as did a snapshot taken in a removed directory, and
an enabled search view stopped answering after any restore.
---
 sandfs/vfs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 22a07ab..6bd82c4 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -939,7 +939,7 @@ class VirtualFileSystem:
                 target.modified_at = node_state.modified_at
                 continue
             if node_state.is_dir:
-                directory = self.mkdir(path, parents=True, exist_ok=True)
+                directory = self._resolve_dir(path, create=True)
                 directory.metadata = dict(node_state.metadata)
                 directory.policy = self._clone_policy(node_state.policy)
                 directory.version = node_state.version
@@ -953,7 +953,13 @@ class VirtualFileSystem:
                 file_node.version = node_state.version
                 file_node.created_at = node_state.created_at
                 file_node.modified_at = node_state.modified_at
-        self.cwd = self._resolve_dir(snapshot.cwd)
+        if self.is_dir(snapshot.cwd):
+            self.cwd = self._resolve_dir(snapshot.cwd)
+        if self._search_view_prefix is not None:
+            search_root = self._resolve_dir(self._search_view_prefix, create=True)
+            search_root.children.clear()
+            search_root.loader = lambda _: self._search_view_provider()
+            search_root._loaded = False
         self._rebuild_index()
 
     def export_to_path(
-- 
2.43.0


From 3785c42cf5a065c81e2ea343841e791cb23ed2d7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:27:42 +0000
Subject: [PATCH 09/57] fix: syncing a storage mount keeps policies and nested
 mounts

sync_storage rebuilt the mount with default policies, exposing files marked
private or read-only, emptied mounts nested inside it, emptied the mount when
the adapter failed to list, and let adapter keys with '..' land outside it.
---
 sandfs/vfs.py | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 6bd82c4..dc5ba85 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -317,14 +317,42 @@ class VirtualFileSystem:
         return any(self._path_matches_prefix(path, prefix) for prefix in prefixes)
 
     def _load_storage_mount(self, prefix: PurePosixPath, adapter: StorageAdapter) -> None:
-        directory = self._resolve_dir(prefix)
-        directory.children.clear()
-        directory._loaded = True
+        self._resolve_dir(prefix)
+        nested = [
+            (mount, store)
+            for mount, store in self._storage_mounts.items()
+            if mount != prefix and mount.is_relative_to(prefix)
+        ]
+        nested.sort(key=lambda item: len(item[0].parts))
+        layers = [
+            (mount, self._list_storage(mount, store))
+            for mount, store in [(prefix, adapter), *nested]
+        ]
+        known = {path: node for path, node in self.walk(prefix) if path != prefix}
+        for mount, entries in layers:
+            directory = self._resolve_dir(mount, create=True)
+            directory.children.clear()
+            directory._loaded = True
+            for absolute, entry in entries.items():
+                file_node = self._ensure_file(absolute, create=True)
+                file_node.write(entry.content)
+                file_node.version = entry.version
+        for path, node in self.walk(prefix):
+            former = known.get(path)
+            if former is not None:
+                node.policy = former.policy
+                node.metadata = former.metadata
+
+    def _list_storage(
+        self, prefix: PurePosixPath, adapter: StorageAdapter
+    ) -> dict[PurePosixPath, StorageEntry]:
+        entries: dict[PurePosixPath, StorageEntry] = {}
         for rel_path, entry in adapter.list().items():
-            absolute = prefix.joinpath(PurePosixPath(rel_path))
-            file_node = self._ensure_file(absolute, create=True)
-            file_node.write(entry.content)
-            file_node.version = entry.version
+            absolute = self._normalize(prefix.joinpath(PurePosixPath(rel_path)))
+            if absolute == prefix or not absolute.is_relative_to(prefix):
+                raise InvalidOperation(f"Storage entry {rel_path} lies outside mount {prefix}")
+            entries[absolute] = entry
+        return entries
 
     def _rebuild_index(self) -> None:
         if self._full_text_index is None:
-- 
2.43.0


From ce7ace4a7aca00ea1f81d397c479b085e5c51074 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:28:01 +0000
Subject: [PATCH 10/57] fix: a storage mount that cannot be loaded is not half
 mounted

A failing adapter left the directory, policy and mount entry behind.
---
 sandfs/vfs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index dc5ba85..3d6a388 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -1085,11 +1085,17 @@ class VirtualFileSystem:
         policy: NodePolicy | None = None,
     ) -> VirtualDirectory:
         normalized = self._normalize(path)
+        anchor, missing = self._nearest_existing(normalized)
         directory = self.mkdir(normalized, parents=True, exist_ok=True)
+        try:
+            self._load_storage_mount(normalized, adapter)
+        except Exception:
+            if missing is not None and isinstance(anchor, VirtualDirectory):
+                anchor.remove_child(missing)
+            raise
         if policy is not None:
             directory.policy = policy
         self._storage_mounts[normalized] = adapter
-        self._load_storage_mount(normalized, adapter)
         self._rebuild_index()
         return directory
 
-- 
2.43.0


From f9222d1f8a90c6d2dd5d960fa572247bb4901bcb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:28:02 +0000
Subject: [PATCH 11/57] fix: a failing provider no longer breaks indexing

Indexing skipped InvalidOperation, but failing providers raise ProviderError,
so one of them made moves, restores and enabling the index fail half way.
---
 sandfs/vfs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 3d6a388..a7e6700 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -12,7 +12,7 @@ from dataclasses import dataclass
 from pathlib import Path, PurePosixPath
 
 from .adapters import StorageAdapter, StorageEntry
-from .exceptions import InvalidOperation, NodeExists, NodeNotFound
+from .exceptions import InvalidOperation, NodeExists, NodeNotFound, SandboxError
 from .hooks import WriteEvent, WriteHook
 from .integrations import PathEvent, PathHook
 from .nodes import VirtualDirectory, VirtualFile, VirtualNode
@@ -362,7 +362,7 @@ class VirtualFileSystem:
         for path, file_node in self.iter_files("/", recursive=True, skip_prefixes=skip_prefixes):
             try:
                 content = file_node.read(self)
-            except InvalidOperation:
+            except SandboxError:
                 continue
             entries.append((path, content))
         self._full_text_index.build(entries)
@@ -372,8 +372,8 @@ class VirtualFileSystem:
             return
         try:
             self._full_text_index.index_file(node.path(), node.read(self))
-        except InvalidOperation:
-            return
+        except SandboxError:
+            self._full_text_index.remove_file(node.path())
 
     def _remove_index_entry(self, path: PurePosixPath) -> None:
         if self._full_text_index is None:
-- 
2.43.0


From 6471f016c100951ac3520f723a48db6d472c5dbc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:28:30 +0000
Subject: [PATCH 12/57] fix: searches respect unreadable files and agree with
 the index

grep, rg, search and the search view printed files marked unreadable, and with
the index on a missing, relative or unreadable path prefix gave other results
than without it.
---
 sandfs/shell.py |  2 ++
 sandfs/vfs.py   | 32 +++++++++++++-------------------
 2 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 1c9f9dc..9da7cc7 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -952,6 +952,8 @@ class SandboxShell:
         lowered = pattern.lower() if ignore_case and not regex else None
         for target in paths:
             for file_path, file_node in self.vfs.iter_files(target, recursive=recursive):
+                if not file_node.policy.readable:
+                    continue
                 if self.view and not self.view.allows_node(file_node):
                     continue
                 text = file_node.read(self.vfs)
diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index a7e6700..cb9016b 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -8,7 +8,7 @@ import re
 import tempfile
 import time
 from collections.abc import Iterable, Iterator, Mapping, MutableMapping
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from pathlib import Path, PurePosixPath
 
 from .adapters import StorageAdapter, StorageEntry
@@ -491,16 +491,13 @@ class VirtualFileSystem:
         *,
         view: VisibilityView | None = None,
     ) -> list[SearchResult]:
+        query = replace(query, path_prefix=self._normalize(query.path_prefix or "/"))
+        try:
+            self._ensure_read_allowed(self._resolve_node(query.path_prefix or "/"))
+        except (NodeNotFound, InvalidOperation):
+            return []
         if self._full_text_index is not None:
             results = self._full_text_index.search(query)
-            if view is None:
-                if self._search_view_prefix is None:
-                    return results
-                return [
-                    result
-                    for result in results
-                    if not result.path.is_relative_to(self._search_view_prefix)
-                ]
             filtered: list[SearchResult] = []
             for result in results:
                 if self._search_view_prefix and result.path.is_relative_to(
@@ -511,26 +508,23 @@ class VirtualFileSystem:
                     node = self.get_node(result.path)
                 except (NodeNotFound, InvalidOperation):
                     continue
-                if view.allows_node(node):
+                if node.policy.readable and (view is None or view.allows_node(node)):
                     filtered.append(result)
             return filtered
 
         file_results: list[SearchResult] = []
-        try:
-            files = self.iter_files(
-                query.path_prefix or "/",
-                recursive=True,
-                skip_prefixes=[self._search_view_prefix] if self._search_view_prefix else None,
-            )
-        except (NodeNotFound, InvalidOperation):
-            return file_results
+        files = self.iter_files(
+            query.path_prefix or "/",
+            recursive=True,
+            skip_prefixes=[self._search_view_prefix] if self._search_view_prefix else None,
+        )
         flags = re.MULTILINE | (re.IGNORECASE if query.ignore_case else 0)
         compiled = re.compile(query.query, flags) if query.regex else None
         lowered = query.query.lower() if query.ignore_case and not query.regex else None
         for path, node in files:
             if self._search_view_prefix and path.is_relative_to(self._search_view_prefix):
                 continue
-            if view and not view.allows_node(node):
+            if not node.policy.readable or (view and not view.allows_node(node)):
                 continue
             text = node.read(self)
             for idx, line in enumerate(text.splitlines(), start=1):
-- 
2.43.0


From 9b30c4426c00bad7a704a61ca23b251ccb668113 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:28:31 +0000
Subject: [PATCH 13/57] fix: search prints one match per line

Matches were joined with a literal backslash-n.
---
 sandfs/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 9da7cc7..1382c30 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -932,7 +932,7 @@ class SandboxShell:
                     results.append(f"{match.path}:{match.line_no}:{match.line_text}")
                 else:
                     results.append(f"{match.path}:{match.line_text}")
-        return CommandResult(stdout="\\n".join(results))
+        return CommandResult(stdout="\n".join(results))
 
     def _search(
         self,
-- 
2.43.0


From 0008ba7c09356aaf5c3ffe78fe5ac303dd4fec3e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:28:52 +0000
Subject: [PATCH 14/57] fix: search refuses hidden, missing and unreadable
 paths like grep does

---
 sandfs/shell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 1382c30..0b3435c 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -921,6 +921,9 @@ class SandboxShell:
         results: list[str] = []
         for path in paths:
             normalized = self.vfs._normalize(path)
+            self._ensure_visible_path(path)
+            if not self.vfs.get_node(path).policy.readable:
+                raise InvalidOperation(f"{normalized} is not readable")
             query = SearchQuery(
                 query=pattern,
                 regex=regex,
-- 
2.43.0


From 95de15452a1823f3c734a05cedd79930d7697d5b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:28:53 +0000
Subject: [PATCH 15/57] fix: the command allow-list also covers host fallback
 and empty lists

With host fallback on, unknown commands ran on the host whatever the
allow-list said, and an empty allow-list allowed everything.
---
 sandfs/shell.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 0b3435c..894e2ff 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -69,7 +69,9 @@ class SandboxShell:
         self.last_command_name: str | None = None
         self.py_exec = python_executor or PythonExecutor(vfs)
         self.view = view or VisibilityView()
-        self.allowed_commands: set[str] | None = set(allowed_commands) if allowed_commands else None
+        self.allowed_commands: set[str] | None = (
+            set(allowed_commands) if allowed_commands is not None else None
+        )
         self.max_output_bytes = max_output_bytes
         self.host_fallback = host_fallback
         self._handler_accepts_ctx: dict[str, bool] = {}
@@ -345,12 +347,12 @@ class SandboxShell:
     def _run_command(self, name: str, args: list[str], ctx: CommandContext) -> CommandResult:
         self.last_command_name = name
         handler = self.commands.get(name)
+        if self.allowed_commands is not None and name not in self.allowed_commands:
+            return CommandResult(stderr=f"Command '{name}' is disabled in this shell", exit_code=1)
         if handler is None:
             if self.host_fallback:
                 return self._run_host_process([name, *args], None, stdin=ctx.stdin, env=ctx.env)
             return CommandResult(stderr=f"Unknown command: {name}", exit_code=127)
-        if self.allowed_commands is not None and name not in self.allowed_commands:
-            return CommandResult(stderr=f"Command '{name}' is disabled in this shell", exit_code=1)
         try:
             if self._handler_accepts_ctx.get(name):
                 result = handler(args, ctx)
-- 
2.43.0


From 78449fedc9057a2a51460c7b779a580662a0022e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:28:54 +0000
Subject: [PATCH 16/57] fix: the output limit counts bytes, not characters

---
 sandfs/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 894e2ff..007e442 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -126,7 +126,7 @@ class SandboxShell:
     def _enforce_output_limit(self, result: CommandResult) -> CommandResult:
         if self.max_output_bytes is None:
             return result
-        total = len(result.stdout) + len(result.stderr)
+        total = len((result.stdout + result.stderr).encode("utf-8", errors="surrogatepass"))
         if total <= self.max_output_bytes:
             return result
         return CommandResult(
-- 
2.43.0


From 87175416f3715ff37172d08ee0e52fd83e774154 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 17/57] fix: shell exec reports failing redirections and globs
 instead of raising

Reading from or redirecting to a missing, hidden or protected path raised out
of exec, and syntax errors bypassed the output limit.
---
 sandfs/shell.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 007e442..4dd0a0a 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -275,7 +275,11 @@ class SandboxShell:
     def exec(self, command: str) -> CommandResult:
         last_result = CommandResult()
         for segment in filter(None, (line.strip() for line in command.splitlines())):
-            last_result = self._exec_pipeline(segment)
+            try:
+                last_result = self._exec_pipeline(segment)
+            except Exception as exc:  # failing redirections, globs and input files
+                last_result = CommandResult(stderr=str(exc) or type(exc).__name__, exit_code=1)
+            last_result = self._enforce_output_limit(last_result)
             if last_result.exit_code != 0:
                 return last_result
         return last_result
@@ -359,7 +363,7 @@ class SandboxShell:
             else:
                 result = handler(args)
         except SandboxError as exc:
-            return CommandResult(stderr=str(exc), exit_code=1)
+            return CommandResult(stderr=str(exc) or type(exc).__name__, exit_code=1)
         except Exception as exc:  # pragma: no cover - unexpected failure path
             return CommandResult(stderr=f"{name} failed: {exc}", exit_code=1)
         if isinstance(result, CommandResult):
-- 
2.43.0


From 4449217a6bab9e1b708e09045e6c50872602eaf7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:29:52 +0000
Subject: [PATCH 18/57] fix: quoted pipe and redirection characters are
 ordinary text

grep '>' file was parsed as a redirection onto file.
---
 sandfs/shell_parser.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/sandfs/shell_parser.py b/sandfs/shell_parser.py
index 9db9784..5dc4c53 100644
--- a/sandfs/shell_parser.py
+++ b/sandfs/shell_parser.py
@@ -25,8 +25,33 @@ class Pipeline:
 _ASSIGNMENT_RE = re.compile(r"^[A-Za-z_][A-Za-z0-9_]*=")
 
 
+# Noncharacters standing in for quoted operators, which the lexer cannot tell from bare ones.
+_MASK = str.maketrans("|<>", "\ufdd0\ufdd1\ufdd2")
+_UNMASK = str.maketrans("\ufdd0\ufdd1\ufdd2", "|<>")
+
+
+def _mask_quoted_operators(command_line: str) -> str:
+    masked: list[str] = []
+    quote: str | None = None
+    escaped = False
+    for char in command_line:
+        literal = escaped or quote is not None
+        if escaped:
+            escaped = False
+        elif char == "\\" and quote != "'":
+            escaped = True
+        elif quote is None and char in "'\"":
+            quote = char
+        elif char == quote:
+            quote = None
+        masked.append(char.translate(_MASK) if literal else char)
+    return "".join(masked)
+
+
 def _tokenize(command_line: str) -> list[str]:
-    lexer = shlex.shlex(command_line, posix=True, punctuation_chars="|<>")
+    lexer = shlex.shlex(
+        _mask_quoted_operators(command_line), posix=True, punctuation_chars="|<>"
+    )
     lexer.whitespace_split = True
     lexer.commenters = ""
     return list(lexer)
@@ -50,7 +75,7 @@ def parse_pipeline(command_line: str) -> Pipeline:
         if token in ("<", ">", ">>"):
             if idx + 1 >= len(tokens):
                 raise ValueError(f"Missing redirection target after {token}")
-            target = tokens[idx + 1]
+            target = tokens[idx + 1].translate(_UNMASK)
             if token == "<":
                 current.stdin = target
             else:
@@ -58,6 +83,7 @@ def parse_pipeline(command_line: str) -> Pipeline:
                 current.append = token == ">>"
             idx += 2
             continue
+        token = token.translate(_UNMASK)
         if current.name is None and _ASSIGNMENT_RE.match(token):
             key, value = token.split("=", 1)
             current.assignments[key] = value
-- 
2.43.0


From dfe4fbc1b79cb590219ba4696bccbfd14a2c4727 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:29:53 +0000
Subject: [PATCH 19/57] fix: hiding a directory from a view hides what lies
 below it

find and tree skipped hidden directories, but cat, grep, search, globs and
redirections reached (and created) files below them.
---
 sandfs/policies.py | 5 +++++
 sandfs/shell.py    | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/sandfs/policies.py b/sandfs/policies.py
index 07c1ed6..1dbcc67 100644
--- a/sandfs/policies.py
+++ b/sandfs/policies.py
@@ -75,6 +75,11 @@ class VisibilityView:
     def allows_node(self, node: "VirtualNode") -> bool:
         if not self.allows(node.policy):
             return False
+        ancestor = node.parent
+        while ancestor is not None:
+            if not self.allows(ancestor.policy):
+                return False
+            ancestor = ancestor.parent
         if self.path_prefixes is not None:
             node_path = node.path()
             if not any(
diff --git a/sandfs/shell.py b/sandfs/shell.py
index 4dd0a0a..8514257 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -112,6 +112,13 @@ class SandboxShell:
                 for prefix in self.view.path_prefixes
             ):
                 raise InvalidOperation(f"Path {path} is hidden for this view")
+        target = self.vfs._normalize(path)
+        for ancestor in reversed(target.parents):
+            try:
+                if not self.view.allows(self.vfs.get_node(ancestor).policy):
+                    raise InvalidOperation(f"Path {path} is hidden for this view")
+            except NodeNotFound:
+                return
         try:
             node = self.vfs.get_node(path)
         except NodeNotFound:
-- 
2.43.0


From 66979137a81e1dc3198c29cad70c5dd06ceb5b0e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:30:50 +0000
Subject: [PATCH 20/57] fix: cp, mv and rm refuse subtrees holding nodes hidden
 from the view

rm -r deleted nodes the shell may not see, and cp -r or mv of a directory above
a path prefix moved hidden files to where the view shows them.
---
 sandfs/shell.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 8514257..87fb2ce 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -130,6 +130,12 @@ class SandboxShell:
         if not self.view.allows_node(node):
             raise InvalidOperation(f"Path {path} is hidden for this view")
 
+    def _ensure_visible_tree(self, path: str) -> None:
+        """Refuse operations on whole subtrees that reach nodes hidden from the view."""
+        self._ensure_visible_path(path)
+        for node_path, _ in self.vfs.walk(path):
+            self._ensure_visible_path(str(node_path))
+
     def _enforce_output_limit(self, result: CommandResult) -> CommandResult:
         if self.max_output_bytes is None:
             return result
@@ -670,7 +676,7 @@ class SandboxShell:
         for target in targets:
             if self._parse_search_path(target) is not None:
                 return CommandResult(stderr="rm: cannot remove search view paths", exit_code=1)
-            self._ensure_visible_path(target)
+            self._ensure_visible_tree(target)
             self.vfs.remove(target, recursive=recursive)
         return CommandResult()
 
@@ -687,7 +693,7 @@ class SandboxShell:
         source, dest = operands
         if self._parse_search_path(source) is not None or self._parse_search_path(dest) is not None:
             return CommandResult(stderr="cp: cannot use search view paths", exit_code=1)
-        self._ensure_visible_path(source)
+        self._ensure_visible_tree(source)
         self._ensure_visible_path(dest)
         try:
             self.vfs.copy(source, dest, recursive=recursive)
@@ -701,7 +707,7 @@ class SandboxShell:
         source, dest = args
         if self._parse_search_path(source) is not None or self._parse_search_path(dest) is not None:
             return CommandResult(stderr="mv: cannot use search view paths", exit_code=1)
-        self._ensure_visible_path(source)
+        self._ensure_visible_tree(source)
         self._ensure_visible_path(dest)
         try:
             self.vfs.move(source, dest)
-- 
2.43.0


From 1aec4a4b6a5629dfb9bc1397ff8d6a69e16a0441 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:31:22 +0000
Subject: [PATCH 21/57] fix: search view results do not outlive or escape their
 query

The last query's results stayed in the tree, where any other shell could list
or grep them whatever its view, and reading '< /@search?q=x/../file' skipped
the visibility check.
---
 sandfs/shell.py | 5 +++--
 sandfs/vfs.py   | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 87fb2ce..53beb4a 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -432,6 +432,7 @@ class SandboxShell:
         resolved = self._resolve_search_nav(parsed)
         with self.vfs.search_view_context(parsed.query, view=self.view):
             self.vfs._reset_directory(parsed.base)
+            self._ensure_visible_path(resolved)
             return self.vfs.read_file(resolved)
 
     def _write_to_path(self, path: str, content: str, *, append: bool) -> None:
@@ -1320,14 +1321,14 @@ class SandboxShell:
             try:
                 with self._maybe_search_context(start_path) as resolved:
                     self._ensure_visible_path(resolved)
-                    start_node = self.vfs.get_node(resolved)
+                    found = list(walk_visible(self.vfs.get_node(resolved)))
             except (NodeNotFound, InvalidOperation):
                 return CommandResult(
                     stderr=f"find: `{start_path}': No such file or directory",
                     exit_code=1,
                 )
 
-            for path, node in walk_visible(start_node):
+            for path, node in found:
                 if type_filter:
                     is_dir = isinstance(node, VirtualDirectory)
                     if type_filter == "f" and is_dir:
diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index cb9016b..c0f8679 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -407,6 +407,8 @@ class VirtualFileSystem:
             yield
         finally:
             self._search_view_context = previous
+            if self._search_view_prefix is not None and self.is_dir(self._search_view_prefix):
+                self._reset_directory(self._search_view_prefix)
 
     def _reset_directory(self, path: str | PurePosixPath) -> None:
         directory = self._resolve_dir(path)
-- 
2.43.0


From a068a1765ed56d755cbc7bee71230d0d4be86fff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:31:47 +0000
Subject: [PATCH 22/57] fix: host commands leave untouched files alone and sync
 type changes

Every host command rewrote CRLF files with LF and rewrote unreadable files
(bumping versions and firing hooks), and failed half way when a file became a
directory or a dangling link was left behind.
---
 sandfs/shell.py | 33 ++++++++++++---------------------
 sandfs/vfs.py   |  2 +-
 2 files changed, 13 insertions(+), 22 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 53beb4a..cbb2340 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -233,32 +233,23 @@ class SandboxShell:
 
     def _sync_from_host(self, fs_root: Path) -> None:
         host_dirs: set[PurePosixPath] = set()
-        host_files: set[PurePosixPath] = set()
+        host_files: dict[PurePosixPath, Path] = {}
         for path in sorted(fs_root.rglob("*")):
             sandbox_path = PurePosixPath("/").joinpath(*path.relative_to(fs_root).parts)
             if path.is_dir():
                 host_dirs.add(sandbox_path)
-                if sandbox_path != PurePosixPath("/"):
-                    self.vfs.mkdir(sandbox_path, parents=True, exist_ok=True)
-                continue
-            host_files.add(sandbox_path)
-            try:
-                text = path.read_text()
-            except UnicodeDecodeError:
-                text = path.read_bytes().decode(errors="ignore")
-            self.vfs.mkdir(sandbox_path.parent, parents=True, exist_ok=True)
-            should_write = True
+            elif path.is_file():
+                host_files[sandbox_path] = path
+        self._remove_missing(host_dirs, set(host_files))
+        for sandbox_path in sorted(host_dirs):
+            self.vfs.mkdir(sandbox_path, parents=True, exist_ok=True)
+        for sandbox_path, path in host_files.items():
+            text = path.read_bytes().decode("utf-8", errors="ignore")
             if self.vfs.is_file(sandbox_path):
-                try:
-                    existing = self.vfs.read_file(sandbox_path)
-                except InvalidOperation:
-                    existing = None
-                else:
-                    if existing == text:
-                        should_write = False
-            if should_write:
-                self.vfs.write_file(sandbox_path, text)
-        self._remove_missing(host_dirs, host_files)
+                node = self.vfs.get_node(sandbox_path)
+                if isinstance(node, VirtualFile) and node.read(self.vfs) == text:
+                    continue
+            self.vfs.write_file(sandbox_path, text)
 
     def _remove_missing(
         self,
diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index c0f8679..6901f1c 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -1017,7 +1017,7 @@ class VirtualFileSystem:
                 self._export_directory(child, target)
             elif isinstance(child, VirtualFile):
                 target.parent.mkdir(parents=True, exist_ok=True)
-                target.write_text(child.read(self))
+                target.write_text(child.read(self), encoding="utf-8", newline="")
             else:
                 raise InvalidOperation(f"Unsupported node type during export: {type(child)!r}")
 
-- 
2.43.0


From a1717cd3351399b87d238a673f9dfce34b703a59 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:31:48 +0000
Subject: [PATCH 23/57] fix: the directory adapter keeps line endings

CRLF and CR were turned into LF on every read, so a sync altered the files.
---
 sandfs/adapters.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sandfs/adapters.py b/sandfs/adapters.py
index 601d4be..427ee45 100644
--- a/sandfs/adapters.py
+++ b/sandfs/adapters.py
@@ -82,6 +82,10 @@ class FileSystemAdapter(StorageAdapter):
             raise ValueError(f"Path escapes adapter root: {path}")
         return target
 
+    def _read_text(self, target: Path) -> str:
+        with target.open(encoding=self.encoding, errors="replace", newline="") as handle:
+            return handle.read()
+
     def _refresh_version(self, rel_path: str, *, target: Path | None = None) -> int:
         if target is None:
             target = self._resolve(rel_path)
@@ -104,7 +108,7 @@ class FileSystemAdapter(StorageAdapter):
         if not target.exists():
             raise FileNotFoundError(path)
         version = self._refresh_version(path, target=target)
-        content = target.read_text(encoding=self.encoding, errors="replace")
+        content = self._read_text(target)
         return StorageEntry(content=content, version=version)
 
     def write(self, path: str, content: str, *, version: int) -> StorageEntry:
@@ -113,7 +117,7 @@ class FileSystemAdapter(StorageAdapter):
         if current != version:
             raise ValueError("version mismatch")
         target.parent.mkdir(parents=True, exist_ok=True)
-        target.write_text(content, encoding=self.encoding, errors="replace")
+        target.write_text(content, encoding=self.encoding, errors="replace", newline="")
         mtime = target.stat().st_mtime_ns
         new_version = current + 1
         self._versions[path] = new_version
@@ -127,7 +131,7 @@ class FileSystemAdapter(StorageAdapter):
                 continue
             rel_path = path.relative_to(self.root).as_posix()
             version = self._refresh_version(rel_path, target=path)
-            content = path.read_text(encoding=self.encoding, errors="replace")
+            content = self._read_text(path)
             entries[rel_path] = StorageEntry(content=content, version=version)
         return entries
 
-- 
2.43.0


From 497a96387e4411a8126c93fa847e42b68654b8b0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:31:49 +0000
Subject: [PATCH 24/57] fix: the directory adapter does not list links that
 leave its root

read and write refused such links, but list (and so every mount and sync)
returned the content of the file outside.
---
 sandfs/adapters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandfs/adapters.py b/sandfs/adapters.py
index 427ee45..1ff0613 100644
--- a/sandfs/adapters.py
+++ b/sandfs/adapters.py
@@ -127,7 +127,7 @@ class FileSystemAdapter(StorageAdapter):
     def list(self) -> dict[str, StorageEntry]:
         entries: dict[str, StorageEntry] = {}
         for path in self.root.rglob("*"):
-            if not path.is_file():
+            if not path.is_file() or not path.resolve().is_relative_to(self._root_resolved):
                 continue
             rel_path = path.relative_to(self.root).as_posix()
             version = self._refresh_version(rel_path, target=path)
-- 
2.43.0


From d4464b00394372a10f11f034a3c5a2102afd65eb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:31:50 +0000
Subject: [PATCH 25/57] fix: directory providers cannot plant '..' names and
 fail as provider errors

A provided name such as '../x' made exports and host commands write outside
the target directory; a failing directory provider raised its raw exception
and a bad entry left a half-loaded directory.
---
 sandfs/nodes.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sandfs/nodes.py b/sandfs/nodes.py
index 634eb21..dae2e85 100644
--- a/sandfs/nodes.py
+++ b/sandfs/nodes.py
@@ -101,11 +101,17 @@ class VirtualDirectory(VirtualNode):
             self._loaded = True
             return
         ctx = self.build_context(vfs)
-        snapshot = self.loader(ctx)
-        for name, provided in snapshot.items():
-            if name in self.children:
-                continue
-            self.add_child(instantiate_provided_node(name, provided, parent=self))
+        try:
+            snapshot = self.loader(ctx)
+        except Exception as exc:
+            raise ProviderError(str(exc)) from exc
+        provided_nodes = [
+            instantiate_provided_node(name, provided, parent=self)
+            for name, provided in snapshot.items()
+            if name not in self.children
+        ]
+        for node in provided_nodes:
+            self.add_child(node)
         self._loaded = True
 
     def add_child(self, node: VirtualNode) -> None:
@@ -137,6 +143,8 @@ def instantiate_provided_node(
     *,
     parent: VirtualDirectory | None,
 ) -> VirtualNode:
+    if name in ("", ".", "..") or "/" in name:
+        raise InvalidOperation(f"Invalid provided node name: {name!r}")
     if provided.kind == "file":
         file_node = VirtualFile(name=name, parent=parent, metadata=provided.metadata)
         if provided.content_provider:
-- 
2.43.0


From f627ec324a0cca2c7c7fe504d63177627b20c17b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:31:50 +0000
Subject: [PATCH 26/57] fix: tail -n 0 prints nothing instead of everything

---
 sandfs/shell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index cbb2340..6449750 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -1250,9 +1250,9 @@ class SandboxShell:
 
             if mode == "lines":
                 lines = content.splitlines(keepends=True)
-                output.append("".join(lines[-count:]))
+                output.append("".join(lines[-count:] if count else []))
             else:
-                output.append(content[-count:])
+                output.append(content[-count:] if count else "")
 
             if i < len(paths) - 1:
                 output.append("")
-- 
2.43.0


From e2cab6805df34b8648b4c6ff68ba4b24e8c3b62c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:32:33 +0000
Subject: [PATCH 27/57] fix: the directory adapter tracks one version per file,
 however it is spelled

'/a.txt' and './a.txt' had version counters of their own, so a stale write
under another spelling overwrote newer content.
---
 sandfs/adapters.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sandfs/adapters.py b/sandfs/adapters.py
index 1ff0613..18068a4 100644
--- a/sandfs/adapters.py
+++ b/sandfs/adapters.py
@@ -82,6 +82,9 @@ class FileSystemAdapter(StorageAdapter):
             raise ValueError(f"Path escapes adapter root: {path}")
         return target
 
+    def _key(self, target: Path) -> str:
+        return target.resolve().relative_to(self._root_resolved).as_posix()
+
     def _read_text(self, target: Path) -> str:
         with target.open(encoding=self.encoding, errors="replace", newline="") as handle:
             return handle.read()
@@ -89,6 +92,7 @@ class FileSystemAdapter(StorageAdapter):
     def _refresh_version(self, rel_path: str, *, target: Path | None = None) -> int:
         if target is None:
             target = self._resolve(rel_path)
+        rel_path = self._key(target)
         if not target.exists():
             self._versions.pop(rel_path, None)
             self._mtimes.pop(rel_path, None)
@@ -120,8 +124,8 @@ class FileSystemAdapter(StorageAdapter):
         target.write_text(content, encoding=self.encoding, errors="replace", newline="")
         mtime = target.stat().st_mtime_ns
         new_version = current + 1
-        self._versions[path] = new_version
-        self._mtimes[path] = mtime
+        self._versions[self._key(target)] = new_version
+        self._mtimes[self._key(target)] = mtime
         return StorageEntry(content=content, version=new_version)
 
     def list(self) -> dict[str, StorageEntry]:
@@ -139,5 +143,5 @@ class FileSystemAdapter(StorageAdapter):
         target = self._resolve(path)
         if target.exists():
             target.unlink()
-        self._versions.pop(path, None)
-        self._mtimes.pop(path, None)
+        self._versions.pop(self._key(target), None)
+        self._mtimes.pop(self._key(target), None)
-- 
2.43.0


From 966d296a2a33855453c89b5eef7aa21c01e97847 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:37:08 +0000
Subject: [PATCH 28/57] fix: find refuses to list an unreadable directory, as
 ls does

---
 sandfs/shell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 6449750..85ef2df 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -1312,7 +1312,10 @@ class SandboxShell:
             try:
                 with self._maybe_search_context(start_path) as resolved:
                     self._ensure_visible_path(resolved)
-                    found = list(walk_visible(self.vfs.get_node(resolved)))
+                    start = self.vfs.get_node(resolved)
+                    if isinstance(start, VirtualDirectory):
+                        self.vfs._ensure_read_allowed(start)
+                    found = list(walk_visible(start))
             except (NodeNotFound, InvalidOperation):
                 return CommandResult(
                     stderr=f"find: `{start_path}': No such file or directory",
-- 
2.43.0


From fbf3c8eb678c4cee57d82547a288e096c6724814 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:37:22 +0000
Subject: [PATCH 29/57] fix: the directory adapter can store a file where
 removed entries left empty directories

---
 sandfs/adapters.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sandfs/adapters.py b/sandfs/adapters.py
index 18068a4..df72927 100644
--- a/sandfs/adapters.py
+++ b/sandfs/adapters.py
@@ -93,7 +93,7 @@ class FileSystemAdapter(StorageAdapter):
         if target is None:
             target = self._resolve(rel_path)
         rel_path = self._key(target)
-        if not target.exists():
+        if not target.is_file():
             self._versions.pop(rel_path, None)
             self._mtimes.pop(rel_path, None)
             return 0
@@ -107,6 +107,16 @@ class FileSystemAdapter(StorageAdapter):
             self._mtimes[rel_path] = mtime
         return self._versions.get(rel_path, 0)
 
+    def _remove_empty_tree(self, directory: Path) -> None:
+        """Clear directories left behind by removed entries, which a new file may replace."""
+        below = sorted(directory.rglob("*"), reverse=True)
+        if directory == self._root_resolved or any(
+            path.is_symlink() or not path.is_dir() for path in below
+        ):
+            raise ValueError(f"{directory} is a directory")
+        for path in [*below, directory]:
+            path.rmdir()
+
     def read(self, path: str) -> StorageEntry:
         target = self._resolve(path)
         if not target.exists():
@@ -120,6 +130,8 @@ class FileSystemAdapter(StorageAdapter):
         current = self._refresh_version(path, target=target)
         if current != version:
             raise ValueError("version mismatch")
+        if target.is_dir():
+            self._remove_empty_tree(target)
         target.parent.mkdir(parents=True, exist_ok=True)
         target.write_text(content, encoding=self.encoding, errors="replace", newline="")
         mtime = target.stat().st_mtime_ns
-- 
2.43.0


From cefc62268aea133c7f7cb78f48323333c1ffce70 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:50:57 +0000
Subject: [PATCH 30/57] fix: indexing copes with an unreadable root and failing
 directory providers

---
 sandfs/vfs.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 6901f1c..72e54ba 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -358,15 +358,28 @@ class VirtualFileSystem:
         if self._full_text_index is None:
             return
         entries = []
-        skip_prefixes = [self._search_view_prefix] if self._search_view_prefix else None
-        for path, file_node in self.iter_files("/", recursive=True, skip_prefixes=skip_prefixes):
+        for file_node in self._indexable_files(self.root):
             try:
                 content = file_node.read(self)
             except SandboxError:
                 continue
-            entries.append((path, content))
+            entries.append((file_node.path(), content))
         self._full_text_index.build(entries)
 
+    def _indexable_files(self, directory: VirtualDirectory) -> Iterator[VirtualFile]:
+        """List files whatever their policy; searches check policies when they run."""
+        if directory.path() == self._search_view_prefix:
+            return
+        try:
+            children = list(directory.iter_children(self))
+        except SandboxError:
+            return
+        for child in children:
+            if isinstance(child, VirtualFile):
+                yield child
+            elif isinstance(child, VirtualDirectory):
+                yield from self._indexable_files(child)
+
     def _index_file(self, node: VirtualFile) -> None:
         if self._full_text_index is None:
             return
-- 
2.43.0


From 52038bec6fbf46e377158e94919de1b6f0f620db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 21:54:15 +0000
Subject: [PATCH 31/57] fix: a sync that cannot place an entry leaves the mount
 as it was

---
 sandfs/vfs.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 72e54ba..4a3f45d 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -317,7 +317,7 @@ class VirtualFileSystem:
         return any(self._path_matches_prefix(path, prefix) for prefix in prefixes)
 
     def _load_storage_mount(self, prefix: PurePosixPath, adapter: StorageAdapter) -> None:
-        self._resolve_dir(prefix)
+        top = self._resolve_dir(prefix)
         nested = [
             (mount, store)
             for mount, store in self._storage_mounts.items()
@@ -329,14 +329,21 @@ class VirtualFileSystem:
             for mount, store in [(prefix, adapter), *nested]
         ]
         known = {path: node for path, node in self.walk(prefix) if path != prefix}
-        for mount, entries in layers:
-            directory = self._resolve_dir(mount, create=True)
-            directory.children.clear()
-            directory._loaded = True
-            for absolute, entry in entries.items():
-                file_node = self._ensure_file(absolute, create=True)
-                file_node.write(entry.content)
-                file_node.version = entry.version
+        former_children = dict(top.children)
+        try:
+            for mount, entries in layers:
+                directory = self._resolve_dir(mount, create=True)
+                directory.children.clear()
+                directory._loaded = True
+                for absolute, entry in entries.items():
+                    file_node = self._ensure_file(absolute, create=True)
+                    file_node.write(entry.content)
+                    file_node.version = entry.version
+        except Exception:
+            # Entries that clash with each other cannot be shown: keep what was there.
+            top.children.clear()
+            top.children.update(former_children)
+            raise
         for path, node in self.walk(prefix):
             former = known.get(path)
             if former is not None:
-- 
2.43.0


From 1a847ea86462645e2e502cad661cc8da560b9451 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:03:48 +0000
Subject: [PATCH 32/57] fix: refusing a subtree with hidden nodes does not name
 them

---
 sandfs/shell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 85ef2df..046726e 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -134,7 +134,10 @@ class SandboxShell:
         """Refuse operations on whole subtrees that reach nodes hidden from the view."""
         self._ensure_visible_path(path)
         for node_path, _ in self.vfs.walk(path):
-            self._ensure_visible_path(str(node_path))
+            try:
+                self._ensure_visible_path(str(node_path))
+            except InvalidOperation:
+                raise InvalidOperation(f"{path} holds nodes hidden for this view") from None
 
     def _enforce_output_limit(self, result: CommandResult) -> CommandResult:
         if self.max_output_bytes is None:
-- 
2.43.0


From 0a9aee18542ab9feba6794d733b50c5e6c557116 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:15:11 +0000
Subject: [PATCH 33/57] fix: nothing can be written below the search view
 prefix

---
 sandfs/vfs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 4a3f45d..a090889 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -412,7 +412,9 @@ class VirtualFileSystem:
         def provider(_: NodeContext) -> Mapping[str, ProvidedNode]:
             return self._search_view_provider()
 
-        self.mount_directory(normalized, provider)
+        directory = self.mount_directory(normalized, provider)
+        # Whatever is written below the prefix would be lost with the next query.
+        directory.policy = replace(directory.policy, writable=False)
 
     @contextlib.contextmanager
     def search_view_context(
@@ -1001,6 +1003,7 @@ class VirtualFileSystem:
             self.cwd = self._resolve_dir(snapshot.cwd)
         if self._search_view_prefix is not None:
             search_root = self._resolve_dir(self._search_view_prefix, create=True)
+            search_root.policy = replace(search_root.policy, writable=False)
             search_root.children.clear()
             search_root.loader = lambda _: self._search_view_provider()
             search_root._loaded = False
-- 
2.43.0


From 4d58b4e91226f307de82a7971a99d212ca21ad08 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:23:12 +0000
Subject: [PATCH 34/57] fix: printf interprets escapes of the format once and
 prints its values as they are

---
 sandfs/shell.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 046726e..95ee7d4 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -757,18 +757,14 @@ class SandboxShell:
     def _cmd_printf(self, args: list[str], ctx: CommandContext | None = None) -> CommandResult:
         if not args:
             return CommandResult(stdout="")
-        fmt = args[0]
+        # Escapes belong to the format; the values are printed as they are.
+        escapes = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\"}
+        fmt = re.sub(r"\\([ntr\\])", lambda match: escapes[match.group(1)], args[0])
         values = tuple(args[1:])
         try:
             rendered = fmt % values if "%s" in fmt else fmt
         except TypeError:
             rendered = fmt + (" " + " ".join(values) if values else "")
-        rendered = (
-            rendered.replace("\\n", "\n")
-            .replace("\\t", "\t")
-            .replace("\\r", "\r")
-            .replace("\\\\", "\\")
-        )
         return CommandResult(stdout=rendered)
 
     def _cmd_wc(self, args: list[str], ctx: CommandContext | None = None) -> CommandResult:
-- 
2.43.0


From 2e367320478a134d70d5eab2b97128d6f5fabf92 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:49:21 +0000
Subject: [PATCH 35/57] fix: host commands get relative paths as written

---
 sandfs/shell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 95ee7d4..4402c35 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -209,6 +209,9 @@ class SandboxShell:
             candidate = match.group(0)
             if match.start() >= 3 and token[match.start() - 3 : match.start()] == "://":
                 return candidate
+            before = re.split(r"[\s=:;,|&(<>'\"`]", token[: match.start()])[-1]
+            if before and not before.startswith("-"):
+                return candidate  # the tail of a relative path or of a variable's value
             sandbox_path = self._eligible_sandbox_path(candidate)
             if sandbox_path is None:
                 return candidate
-- 
2.43.0


From d0f8e1dae142d0c7ad8cf2024a7da75ac5dea47d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:49:22 +0000
Subject: [PATCH 36/57] fix: export does not write through links already in the
 target directory

---
 sandfs/vfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index a090889..1741ecf 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -1036,6 +1036,8 @@ class VirtualFileSystem:
         dest.mkdir(parents=True, exist_ok=True)
         for child in node.iter_children(self):
             target = dest / child.name
+            if target.is_symlink():
+                target.unlink()  # never write through a link that leads out of the target
             if isinstance(child, VirtualDirectory):
                 self._export_directory(child, target)
             elif isinstance(child, VirtualFile):
-- 
2.43.0


From 24123f7be7418fd7de0d9c26293c67dbedd847e3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:42:23 +0000
Subject: [PATCH 37/57] fix: a directory left on disk is not an entry to read
 or delete

---
 sandfs/adapters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sandfs/adapters.py b/sandfs/adapters.py
index df72927..773cbe7 100644
--- a/sandfs/adapters.py
+++ b/sandfs/adapters.py
@@ -119,7 +119,7 @@ class FileSystemAdapter(StorageAdapter):
 
     def read(self, path: str) -> StorageEntry:
         target = self._resolve(path)
-        if not target.exists():
+        if not target.is_file():
             raise FileNotFoundError(path)
         version = self._refresh_version(path, target=target)
         content = self._read_text(target)
@@ -153,7 +153,7 @@ class FileSystemAdapter(StorageAdapter):
 
     def delete(self, path: str) -> None:
         target = self._resolve(path)
-        if target.exists():
+        if target.is_file():
             target.unlink()
         self._versions.pop(self._key(target), None)
         self._mtimes.pop(self._key(target), None)
-- 
2.43.0


From 1f6a693a75815448f45415722f96baf9c3a5f14c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:03:23 +0000
Subject: [PATCH 38/57] fix: keep the separators of a relative path parameter
 of a search path

---
 sandfs/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 4402c35..a750ca1 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -464,7 +464,7 @@ class SandboxShell:
         if "/" in tail:
             candidate, remainder = tail.split("/", 1)
             if "path=" in candidate and "=" not in remainder:
-                query_part = f"{candidate}{remainder}"
+                query_part = tail
                 nav_part = None
             else:
                 query_part = candidate
-- 
2.43.0


From c619202e39d45383d3a3fa9b6fb645819e9d2f87 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:03:24 +0000
Subject: [PATCH 39/57] fix: decode the path parameter of a search path once

---
 sandfs/shell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index a750ca1..a7f7276 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -470,7 +470,7 @@ class SandboxShell:
                 query_part = candidate
                 nav_part = remainder
 
-        from urllib.parse import parse_qs, unquote
+        from urllib.parse import parse_qs
 
         params = parse_qs(query_part, keep_blank_values=True)
         query_text = params.get("q", [""])[0]
@@ -479,7 +479,7 @@ class SandboxShell:
         path_prefix_raw = params.get("path", [None])[0]
         path_prefix = None
         if path_prefix_raw:
-            path_prefix = PurePosixPath(unquote(path_prefix_raw))
+            path_prefix = PurePosixPath(path_prefix_raw)
             if not path_prefix.is_absolute():
                 path_prefix = PurePosixPath("/").joinpath(path_prefix)
 
-- 
2.43.0


From 883f9fb83541c8b688cd396848ff926bf663dfd9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:10:44 +0000
Subject: [PATCH 40/57] fix: give each provided node its own policy

A provider may hand the same ProvidedNode to several directories or sandboxes;
the nodes made from it shared one policy object, so changing the policy of one
in place changed the others. Metadata was already copied.
---
 sandfs/nodes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sandfs/nodes.py b/sandfs/nodes.py
index dae2e85..247a16a 100644
--- a/sandfs/nodes.py
+++ b/sandfs/nodes.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import time
 from collections.abc import Iterator
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, replace
 from pathlib import PurePosixPath
 from typing import TYPE_CHECKING
 
@@ -137,6 +137,11 @@ class VirtualDirectory(VirtualNode):
         return iter(self.children.values())
 
 
+def _own_policy(policy: NodePolicy) -> NodePolicy:
+    # A provider may hand out the same node again, here or in another sandbox.
+    return replace(policy, principals=set(policy.principals))
+
+
 def instantiate_provided_node(
     name: str,
     provided: ProvidedNode,
@@ -152,7 +157,7 @@ def instantiate_provided_node(
         else:
             file_node.write(provided.content or "")
         if provided.policy is not None:
-            file_node.policy = provided.policy
+            file_node.policy = _own_policy(provided.policy)
         return file_node
     if provided.kind == "dir":
         directory = VirtualDirectory(
@@ -165,7 +170,7 @@ def instantiate_provided_node(
             for child_name, child in provided.children.items():
                 directory.add_child(instantiate_provided_node(child_name, child, parent=directory))
         if provided.policy is not None:
-            directory.policy = provided.policy
+            directory.policy = _own_policy(provided.policy)
         return directory
     raise InvalidOperation(f"Unknown provided node kind: {provided.kind}")
 
-- 
2.43.0


From ab76995730112675d5d33f0751725153295e2552 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:12:38 +0000
Subject: [PATCH 41/57] fix: leave URLs in host command words alone

The guard against rewriting the path part of a URL compared the three
characters before the match with '://', but the match itself starts at the
slashes, so it never held: 'curl http://host/a' was rewritten.
---
 sandfs/shell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index a7f7276..e65d17c 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -207,8 +207,8 @@ class SandboxShell:
     def _translate_token(self, token: str, fs_root: Path) -> str:
         def replacer(match: re.Match[str]) -> str:
             candidate = match.group(0)
-            if match.start() >= 3 and token[match.start() - 3 : match.start()] == "://":
-                return candidate
+            if token[: match.start()].endswith(":") and candidate.startswith("//"):
+                return candidate  # the rest of a URL
             before = re.split(r"[\s=:;,|&(<>'\"`]", token[: match.start()])[-1]
             if before and not before.startswith("-"):
                 return candidate  # the tail of a relative path or of a variable's value
-- 
2.43.0


From cda362bdf3f2c9fa5479929d36d2cba482b73405 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:51:42 +0000
Subject: [PATCH 42/57] fix: resolve glob patterns against the current
 directory literally

---
 sandfs/vfs.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 1741ecf..279f469 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -586,10 +586,9 @@ class VirtualFileSystem:
                 if fnmatch.fnmatchcase(entry.name, pattern)
             ]
 
-        if pattern.startswith("/"):
-            pattern_path = PurePosixPath(pattern)
-        else:
-            pattern_path = cwd_path.joinpath(PurePosixPath(pattern))
+        # Only the pattern itself holds wildcards; the directory it starts from is a plain name.
+        base = PurePosixPath(re.sub(r"([*?[])", r"[\1]", str(cwd_path)))
+        pattern_path = self._normalize(base.joinpath(pattern))
 
         matches: list[str] = []
         for path, node in self.walk("/"):
-- 
2.43.0


From 772c7b8c93a9c1e9c63e6856b4058e36a2dbb138 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:51:43 +0000
Subject: [PATCH 43/57] fix: do not count keyword-only parameters as a
 command's context

---
 sandfs/shell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index e65d17c..2461b2b 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -88,7 +88,11 @@ class SandboxShell:
         description: str = "",
     ) -> None:
         self.commands[name] = handler
-        params = list(inspect.signature(handler).parameters.values())
+        params = [
+            param
+            for param in inspect.signature(handler).parameters.values()
+            if param.kind not in (param.KEYWORD_ONLY, param.VAR_KEYWORD)  # never given here
+        ]
         accepts_ctx = False
         if params:
             if len(params) >= 2:
-- 
2.43.0


From 04e581229c7ebf02261c8d4428e2f4de4171b228 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:51:44 +0000
Subject: [PATCH 44/57] fix: treat quoted wildcards and dollar signs as
 ordinary text

---
 sandfs/shell.py        | 22 ++++++++++--------
 sandfs/shell_parser.py | 52 ++++++++++++++++++++++++++++++++++++------
 2 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 2461b2b..8896c3d 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -18,7 +18,7 @@ from .nodes import VirtualDirectory, VirtualFile, VirtualNode
 from .policies import VisibilityView
 from .pyexec import PythonExecutor
 from .search import SearchQuery
-from .shell_parser import parse_pipeline
+from .shell_parser import QUOTED_DOLLAR, as_pattern, parse_pipeline, quote, unquote
 from .vfs import DirEntry, VirtualFileSystem
 
 
@@ -387,13 +387,17 @@ class SandboxShell:
         return self._enforce_output_limit(CommandResult(stdout=str(result)))
 
     def _expand_vars(self, token: str, env: dict[str, str]) -> str:
-        pattern = re.compile(r"\$(\w+)|\${([^}]+)}")
+        return unquote(self._substitute_vars(token, env))
+
+    def _substitute_vars(self, token: str, env: dict[str, str]) -> str:
+        pattern = re.compile(rf"([${QUOTED_DOLLAR}])(?:(\w+)|{{([^}}]+)}})")
 
         def replacer(match: re.Match[str]) -> str:
-            name = match.group(1) or match.group(2)
+            name = match.group(2) or match.group(3)
             if not name:
                 return ""
-            return env.get(name, "")
+            value = env.get(name, "")
+            return quote(value) if match.group(1) == QUOTED_DOLLAR else value
 
         return pattern.sub(replacer, token)
 
@@ -405,24 +409,24 @@ class SandboxShell:
                 expanded.append(arg)
                 skip_next = False
                 continue
-            if command_name in {"bash", "sh"} and arg in {"-c", "-lc"}:
+            if command_name in {"bash", "sh"} and unquote(arg) in {"-c", "-lc"}:
                 expanded.append(arg)
                 skip_next = True
                 continue
-            expanded.append(self._expand_vars(arg, env))
+            expanded.append(self._substitute_vars(arg, env))
         return self._expand_globs(expanded)
 
     def _expand_globs(self, args: list[str]) -> list[str]:
         expanded: list[str] = []
         for arg in args:
             if any(ch in arg for ch in "*?[]"):
-                matches = self.vfs.glob(arg, cwd=self.vfs.pwd(), view=self.view)
+                matches = self.vfs.glob(as_pattern(arg), cwd=self.vfs.pwd(), view=self.view)
                 if matches:
                     expanded.extend(matches)
                 else:
-                    expanded.append(arg)
+                    expanded.append(unquote(arg))
             else:
-                expanded.append(arg)
+                expanded.append(unquote(arg))
         return expanded
 
     def _read_from_path(self, path: str) -> str:
diff --git a/sandfs/shell_parser.py b/sandfs/shell_parser.py
index 5dc4c53..6ae101c 100644
--- a/sandfs/shell_parser.py
+++ b/sandfs/shell_parser.py
@@ -25,9 +25,32 @@ class Pipeline:
 _ASSIGNMENT_RE = re.compile(r"^[A-Za-z_][A-Za-z0-9_]*=")
 
 
-# Noncharacters standing in for quoted operators, which the lexer cannot tell from bare ones.
-_MASK = str.maketrans("|<>", "\ufdd0\ufdd1\ufdd2")
-_UNMASK = str.maketrans("\ufdd0\ufdd1\ufdd2", "|<>")
+# Noncharacters standing in for quoted special characters, which the lexer cannot tell from bare
+# ones. Wildcards and dollar signs stay masked in the parsed words until those are expanded.
+_SPECIAL = "|<>*?[]$"
+_MASKS = "\ufdd0\ufdd1\ufdd2\ufdd3\ufdd4\ufdd5\ufdd6\ufdd7"
+QUOTED_DOLLAR = "\ufdd8"  # in double quotes: expands, but to text without wildcards
+_EDGE = "\ufdd9"  # where quoted text begins or ends, so that a variable's name ends there too
+_MASK = str.maketrans(_SPECIAL, _MASKS)
+_MASK_EXPANDING = {**_MASK, ord("$"): QUOTED_DOLLAR}
+_UNMASK = str.maketrans(_MASKS + QUOTED_DOLLAR, _SPECIAL + "$", _EDGE)
+_UNMASK_OPERATORS = str.maketrans(_MASKS[:3], _SPECIAL[:3])
+_AS_PATTERN = {ord(char.translate(_MASK)): f"[{char}]" for char in "*?[]"}
+
+
+def quote(text: str) -> str:
+    """Text as a parsed word that nothing in it expands."""
+    return text.translate(_MASK)
+
+
+def unquote(word: str) -> str:
+    """The text of a parsed word, quoted special characters included."""
+    return word.translate(_UNMASK)
+
+
+def as_pattern(word: str) -> str:
+    """The glob pattern for a parsed word, in which quoted wildcards match only themselves."""
+    return word.translate(_AS_PATTERN).translate(_UNMASK)
 
 
 def _mask_quoted_operators(command_line: str) -> str:
@@ -38,13 +61,20 @@ def _mask_quoted_operators(command_line: str) -> str:
         literal = escaped or quote is not None
         if escaped:
             escaped = False
+            if char == "$" and quote is not None:
+                masked[-1] = ""  # the lexer would keep this backslash
+                char = char.translate(_MASK)
         elif char == "\\" and quote != "'":
             escaped = True
         elif quote is None and char in "'\"":
             quote = char
+            masked.append(_EDGE)
         elif char == quote:
             quote = None
-        masked.append(char.translate(_MASK) if literal else char)
+            char += _EDGE
+        if literal:
+            char = char.translate(_MASK_EXPANDING if quote == '"' else _MASK)
+        masked.append(char)
     return "".join(masked)
 
 
@@ -75,7 +105,7 @@ def parse_pipeline(command_line: str) -> Pipeline:
         if token in ("<", ">", ">>"):
             if idx + 1 >= len(tokens):
                 raise ValueError(f"Missing redirection target after {token}")
-            target = tokens[idx + 1].translate(_UNMASK)
+            target = tokens[idx + 1].translate(_UNMASK_OPERATORS)
             if token == "<":
                 current.stdin = target
             else:
@@ -83,7 +113,7 @@ def parse_pipeline(command_line: str) -> Pipeline:
                 current.append = token == ">>"
             idx += 2
             continue
-        token = token.translate(_UNMASK)
+        token = token.translate(_UNMASK_OPERATORS)
         if current.name is None and _ASSIGNMENT_RE.match(token):
             key, value = token.split("=", 1)
             current.assignments[key] = value
@@ -105,4 +135,12 @@ def _finalize_command(commands: list[CommandSpec], command: CommandSpec) -> None
     commands.append(command)
 
 
-__all__ = ["CommandSpec", "Pipeline", "parse_pipeline"]
+__all__ = [
+    "QUOTED_DOLLAR",
+    "CommandSpec",
+    "Pipeline",
+    "as_pattern",
+    "parse_pipeline",
+    "quote",
+    "unquote",
+]
-- 
2.43.0


From 9b665b7a1037867580d903186c2f21d4ca3abebe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:11:04 +0000
Subject: [PATCH 45/57] fix: keep the current directory attached when storage
 is reloaded

---
 sandfs/vfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 279f469..e698bc5 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -349,6 +349,8 @@ class VirtualFileSystem:
             if former is not None:
                 node.policy = former.policy
                 node.metadata = former.metadata
+                if former is self.cwd and isinstance(node, VirtualDirectory):
+                    self.cwd = node
 
     def _list_storage(
         self, prefix: PurePosixPath, adapter: StorageAdapter
-- 
2.43.0


From 5a6e2b51150bc03d25f1bd9885318bc82d6ce314 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:21:23 +0000
Subject: [PATCH 46/57] fix: let a later search view replace the former one

---
 sandfs/vfs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index e698bc5..3144df5 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -409,12 +409,16 @@ class VirtualFileSystem:
 
     def enable_search_view(self, prefix: str | PurePosixPath = "/@search") -> None:
         normalized = self._normalize(prefix)
-        self._search_view_prefix = normalized
 
         def provider(_: NodeContext) -> Mapping[str, ProvidedNode]:
             return self._search_view_provider()
 
         directory = self.mount_directory(normalized, provider)
+        former = self._search_view_prefix
+        if former is not None and former != normalized and self.is_dir(former):
+            self._reset_directory(former)
+            self._resolve_dir(former).loader = None  # results are shown in one place only
+        self._search_view_prefix = normalized
         # Whatever is written below the prefix would be lost with the next query.
         directory.policy = replace(directory.policy, writable=False)
 
-- 
2.43.0


From 5d86ebe2dc5680780ba9d478dfe7da11edcd6591 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:21:23 +0000
Subject: [PATCH 47/57] fix: recognise search view paths however they are
 spelled

---
 sandfs/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 8896c3d..2f4cd7e 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -463,7 +463,7 @@ class SandboxShell:
         if not raw.startswith("/"):
             raw = str(PurePosixPath(self.vfs.pwd()).joinpath(raw))
         base_str, tail = raw.split("?", 1)
-        base = PurePosixPath(base_str.rstrip("/") or "/")
+        base = self.vfs._normalize(base_str or "/")
         if base != prefix:
             return None
 
-- 
2.43.0


From 974860fa15c03c6552a1b44deb33742375d9c9d8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:21:23 +0000
Subject: [PATCH 48/57] fix: return host output unchanged and keep the changes
 of commands printing other bytes

---
 sandfs/shell.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 2f4cd7e..d861a1a 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -178,9 +178,8 @@ class SandboxShell:
                 completed = subprocess.run(
                     mapped,
                     cwd=str(host_cwd),
-                    input=stdin,
+                    input=None if stdin is None else stdin.encode("utf-8"),
                     capture_output=True,
-                    text=True,
                     check=False,
                     env=merged_env,
                 )
@@ -192,8 +191,8 @@ class SandboxShell:
         except OSError as exc:
             return CommandResult(stderr=str(exc), exit_code=getattr(exc, "errno", 1))
         return CommandResult(
-            stdout=completed.stdout,
-            stderr=completed.stderr,
+            stdout=completed.stdout.decode("utf-8", errors="replace"),
+            stderr=completed.stderr.decode("utf-8", errors="replace"),
             exit_code=completed.returncode,
         )
 
-- 
2.43.0


From 93c27bb219381b3c675e3385c07065c69af53289 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:21:23 +0000
Subject: [PATCH 49/57] fix: give the host's ls the variables of the shell

---
 sandfs/shell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index d861a1a..c13dcc1 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -575,6 +575,7 @@ class SandboxShell:
                     ["ls", *args],
                     None,
                     stdin=ctx.stdin if ctx else None,
+                    env=ctx.env if ctx else None,
                 )
             else:
                 targets.append(arg)
-- 
2.43.0


From f0f87c80fbbe2be85af8cc6caa9ef3610e2db134 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:21:55 +0000
Subject: [PATCH 50/57] fix: announce each write as it was made, whatever
 earlier hooks do to the file

---
 sandfs/vfs.py | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 3144df5..d388e10 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -181,16 +181,19 @@ class VirtualFileSystem:
                 )
             )
 
-    def _emit_write_event(self, node: VirtualFile, *, append: bool, event_type: str) -> None:
-        if self._write_hooks:
-            path = node.path()
-            content = node.read(self)
-            event = WriteEvent(path=str(path), content=content, version=node.version, append=append)
-            for prefix, hook in self._write_hooks:
-                if self._path_matches_prefix(path, prefix):
-                    hook(event)
+    def _write_event(self, node: VirtualFile, *, append: bool) -> WriteEvent:
+        """Record a write before any hook runs: a hook may change or move the file again."""
+        path = node.path()
+        content = node.read(self)
+        return WriteEvent(path=str(path), content=content, version=node.version, append=append)
+
+    def _emit_write_event(self, event: WriteEvent, *, event_type: str) -> None:
+        path = PurePosixPath(event.path)
+        for prefix, hook in self._write_hooks:
+            if self._path_matches_prefix(path, prefix):
+                hook(event)
 
-        self._emit_path_event(node.path(), event_type, node.read(self))
+        self._emit_path_event(path, event_type, event.content)
 
     def _emit_path_event(self, path: PurePosixPath, event_type: str, content: str | None) -> None:
         if not self._path_hooks:
@@ -668,7 +671,7 @@ class VirtualFileSystem:
             raise
         self._index_file(node)
         event_type = "create" if previous_version == 0 else "update"
-        self._emit_write_event(node, append=append, event_type=event_type)
+        self._emit_write_event(self._write_event(node, append=append), event_type=event_type)
         return node
 
     def append_file(
@@ -801,10 +804,15 @@ class VirtualFileSystem:
             self._index_file(node)
         else:
             self._rebuild_index()
-        for old_path, path, file_node in moved:
+        events = {
+            path: self._write_event(file_node, append=False)
+            for _, path, file_node in moved
+            if self._is_hooked(path)
+        }
+        for old_path, path, _ in moved:
             self._emit_path_event(old_path, "delete", None)
-            if self._is_hooked(path):
-                self._emit_write_event(file_node, append=False, event_type="create")
+            if path in events:
+                self._emit_write_event(events[path], event_type="create")
 
     def copy(
         self,
@@ -875,12 +883,9 @@ class VirtualFileSystem:
             self._index_file(clone)
         else:
             self._rebuild_index()
-        for _, file_node in copied:
-            self._emit_write_event(
-                file_node,
-                append=False,
-                event_type="create" if replaced is None else "update",
-            )
+        events = [self._write_event(file_node, append=False) for _, file_node in copied]
+        for event in events:
+            self._emit_write_event(event, event_type="create" if replaced is None else "update")
 
     def _clone_node(self, node: VirtualNode, *, recursive: bool) -> VirtualNode:
         if isinstance(node, VirtualFile):
-- 
2.43.0


From 4f0fa024385d9733324b3cfacb5cce91a2f455d9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:21:55 +0000
Subject: [PATCH 51/57] fix: do not drop files hooks put into a directory being
 removed

---
 sandfs/vfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index d388e10..cd265a7 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -718,6 +718,8 @@ class VirtualFileSystem:
                 if child_node is None:
                     continue
                 self.remove(child_node.path(), recursive=True)
+            if node.children:
+                raise InvalidOperation(f"{node.path()} was filled again while being removed")
         if isinstance(node, VirtualFile):
             self._delete_storage_entry(node)
         parent.remove_child(node.name)
-- 
2.43.0


From 3fa6cca4e79b41cb255622e44f3a6fc9e7102e1c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:39:41 +0000
Subject: [PATCH 52/57] fix: let providers change the tree while it is walked

---
 sandfs/nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sandfs/nodes.py b/sandfs/nodes.py
index 247a16a..549caea 100644
--- a/sandfs/nodes.py
+++ b/sandfs/nodes.py
@@ -134,7 +134,8 @@ class VirtualDirectory(VirtualNode):
 
     def iter_children(self, vfs: "VirtualFileSystem" | None = None) -> Iterator[VirtualNode]:
         self.ensure_loaded(vfs)
-        return iter(self.children.values())
+        # Providers may change the tree while it is being walked.
+        return iter(list(self.children.values()))
 
 
 def _own_policy(policy: NodePolicy) -> NodePolicy:
-- 
2.43.0


From 2a969c132698d1a85e5b5c85eb3e77157f7959e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:37:36 +0000
Subject: [PATCH 53/57] fix: do not take host files that cannot be read for
 removed ones

---
 sandfs/shell.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index c13dcc1..fe8c2d5 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -242,18 +242,24 @@ class SandboxShell:
 
     def _sync_from_host(self, fs_root: Path) -> None:
         host_dirs: set[PurePosixPath] = set()
-        host_files: dict[PurePosixPath, Path] = {}
-        for path in sorted(fs_root.rglob("*")):
-            sandbox_path = PurePosixPath("/").joinpath(*path.relative_to(fs_root).parts)
-            if path.is_dir():
-                host_dirs.add(sandbox_path)
-            elif path.is_file():
-                host_files[sandbox_path] = path
+        host_files: dict[PurePosixPath, str] = {}
+
+        def fail(error: OSError) -> None:
+            raise error
+
+        # Read everything first: a directory or file that cannot be read must not look removed.
+        for top, dir_names, file_names in os.walk(fs_root, onerror=fail):
+            parent = PurePosixPath("/").joinpath(*Path(top).relative_to(fs_root).parts)
+            host_dirs.update(parent / name for name in dir_names)
+            for name in file_names:
+                path = Path(top, name)
+                if path.is_file():
+                    text = path.read_bytes().decode("utf-8", errors="ignore")
+                    host_files[parent / name] = text
         self._remove_missing(host_dirs, set(host_files))
         for sandbox_path in sorted(host_dirs):
             self.vfs.mkdir(sandbox_path, parents=True, exist_ok=True)
-        for sandbox_path, path in host_files.items():
-            text = path.read_bytes().decode("utf-8", errors="ignore")
+        for sandbox_path, text in sorted(host_files.items()):
             if self.vfs.is_file(sandbox_path):
                 node = self.vfs.get_node(sandbox_path)
                 if isinstance(node, VirtualFile) and node.read(self.vfs) == text:
-- 
2.43.0


From 84cf13700694d32899fb1ae61dfd2f2aa8cc2148 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:16:15 +0000
Subject: [PATCH 54/57] fix: report host command failures that carry no error
 number or message

---
 sandfs/shell.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index fe8c2d5..ac02de5 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -185,11 +185,11 @@ class SandboxShell:
                 )
                 self._sync_from_host(fs_root)
         except SandboxError as exc:
-            return CommandResult(stderr=str(exc), exit_code=1)
+            return CommandResult(stderr=str(exc) or type(exc).__name__, exit_code=1)
         except FileNotFoundError as exc:
-            return CommandResult(stderr=str(exc), exit_code=127)
+            return CommandResult(stderr=str(exc) or type(exc).__name__, exit_code=127)
         except OSError as exc:
-            return CommandResult(stderr=str(exc), exit_code=getattr(exc, "errno", 1))
+            return CommandResult(stderr=str(exc) or type(exc).__name__, exit_code=exc.errno or 1)
         return CommandResult(
             stdout=completed.stdout.decode("utf-8", errors="replace"),
             stderr=completed.stderr.decode("utf-8", errors="replace"),
-- 
2.43.0


From 75b322fd4cae8f6f91012ae39e4a915202328f69 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:19:46 +0000
Subject: [PATCH 55/57] fix: undo file writes of the directory adapter that
 break off part way

---
 sandfs/adapters.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sandfs/adapters.py b/sandfs/adapters.py
index 773cbe7..e0db27e 100644
--- a/sandfs/adapters.py
+++ b/sandfs/adapters.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import os
 from collections.abc import Mapping
 from dataclasses import dataclass, field
 from pathlib import Path, PurePosixPath
@@ -117,6 +118,16 @@ class FileSystemAdapter(StorageAdapter):
         for path in [*below, directory]:
             path.rmdir()
 
+    def _undo_write(self, target: Path, previous: tuple[bytes, os.stat_result] | None) -> None:
+        """Put back what a write that broke off part way (a full disk, say) has cut short."""
+        if previous is None:
+            target.unlink(missing_ok=True)
+            return
+        data, status = previous
+        if target.read_bytes() != data:
+            target.write_bytes(data)
+            os.utime(target, ns=(status.st_atime_ns, status.st_mtime_ns))
+
     def read(self, path: str) -> StorageEntry:
         target = self._resolve(path)
         if not target.is_file():
@@ -133,7 +144,12 @@ class FileSystemAdapter(StorageAdapter):
         if target.is_dir():
             self._remove_empty_tree(target)
         target.parent.mkdir(parents=True, exist_ok=True)
-        target.write_text(content, encoding=self.encoding, errors="replace", newline="")
+        previous = (target.read_bytes(), target.stat()) if target.is_file() else None
+        try:
+            target.write_text(content, encoding=self.encoding, errors="replace", newline="")
+        except Exception:
+            self._undo_write(target, previous)
+            raise
         mtime = target.stat().st_mtime_ns
         new_version = current + 1
         self._versions[self._key(target)] = new_version
-- 
2.43.0


From bd5501992fe983fba09c7f2b5f18d330ade39496 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:44:01 +0000
Subject: [PATCH 56/57] fix: let an empty query match every line when case is
 ignored, too

---
 sandfs/search.py | 2 +-
 sandfs/shell.py  | 4 ++--
 sandfs/vfs.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sandfs/search.py b/sandfs/search.py
index 8c21231..f78aaba 100644
--- a/sandfs/search.py
+++ b/sandfs/search.py
@@ -57,7 +57,7 @@ class FullTextIndex:
                     if compiled and compiled.search(line):
                         matched = True
                 elif query.ignore_case:
-                    if lowered and lowered in line.lower():
+                    if lowered is not None and lowered in line.lower():
                         matched = True
                 else:
                     if query.query in line:
diff --git a/sandfs/shell.py b/sandfs/shell.py
index ac02de5..896d1b0 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -994,7 +994,7 @@ class SandboxShell:
                         if compiled and compiled.search(line):
                             matched = True
                     elif ignore_case:
-                        if lowered and lowered in line.lower():
+                        if lowered is not None and lowered in line.lower():
                             matched = True
                     else:
                         if pattern in line:
@@ -1025,7 +1025,7 @@ class SandboxShell:
                 if compiled and compiled.search(line):
                     matched = True
             elif ignore_case:
-                if lowered and lowered in line.lower():
+                if lowered is not None and lowered in line.lower():
                     matched = True
             else:
                 if pattern in line:
diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index cd265a7..7e9b382 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -566,7 +566,7 @@ class VirtualFileSystem:
                     if compiled and compiled.search(line):
                         matched = True
                 elif query.ignore_case:
-                    if lowered and lowered in line.lower():
+                    if lowered is not None and lowered in line.lower():
                         matched = True
                 else:
                     if query.query in line:
-- 
2.43.0


From 9416dbc3c7ed87fe1507d740e10b5ce26117c066 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:44:01 +0000
Subject: [PATCH 57/57] fix: let find -name apply an empty pattern

---
 sandfs/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 896d1b0..16524ca 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -1346,7 +1346,7 @@ class SandboxShell:
                     if type_filter == "d" and not is_dir:
                         continue
 
-                if name_pattern and not fnmatch.fnmatch(node.name, name_pattern):
+                if name_pattern is not None and not fnmatch.fnmatch(node.name, name_pattern):
                     continue
 
                 results.append(str(path))
-- 
2.43.0

