"""Drives the real VirtualFileSystem and the reference model side by side and compares everything observable."""

from __future__ import annotations

import os
import pathlib
import shlex
import shutil
import tempfile
from pathlib import PurePosixPath

from .core import Inconclusive, Violation
from .model import MStore, Pol, Prov, RefFS, Refused, RefusedPartly, Undefined, clone, is_below, pstr

from sandfs import (  # noqa: E402
    FileSystemAdapter,
    MemoryStorageAdapter,
    NodePolicy,
    SandboxShell,
    SearchQuery,
    StorageAdapter,
    VirtualFileSystem,
    VisibilityView,
)
from sandfs.exceptions import SandboxError  # noqa: E402


class StoreFault(OSError):
    """Injected storage failure."""


class SpyStore(StorageAdapter):
    """Delegates to a real adapter, recording every call and failing on demand."""

    def __init__(self, inner: StorageAdapter) -> None:
        self.inner = inner
        self.calls: list[tuple] = []
        self.fail_plan: dict[str, int] = {}  # operation -> calls until failure (0 = next)
        self.error: type[Exception] = StoreFault
        self.fired = 0
        self.listed = False  # during the operation in progress

    def _maybe_fail(self, name: str) -> None:
        left = self.fail_plan.get(name)
        if left is None:
            return
        if left > 0:
            self.fail_plan[name] = left - 1
            return
        del self.fail_plan[name]
        self.fired += 1
        raise self.error(f"injected {name} failure")

    def read(self, path):
        self.calls.append(("read", path))
        self._maybe_fail("read")
        return self.inner.read(path)

    def write(self, path, content, *, version):
        self.calls.append(("write", path, content, version))
        self._maybe_fail("write")
        return self.inner.write(path, content, version=version)

    def list(self):
        self.calls.append(("list",))
        self._maybe_fail("list")
        found = self.inner.list()
        self.listed = True
        return found

    def delete(self, path):
        self.calls.append(("delete", path))
        self._maybe_fail("delete")
        return self.inner.delete(path)


def disk_entries(root) -> dict[str, str]:
    found = {}
    for base, _, names in os.walk(root):
        for name in names:
            full = pathlib.Path(base, name)
            found[full.relative_to(root).as_posix()] = full.read_bytes().decode("utf-8")
    return found


def real_policy(pol: Pol) -> NodePolicy:
    return NodePolicy(
        readable=pol.readable,
        writable=pol.writable,
        append_only=pol.append_only,
        classification=pol.classification,
        principals=set(pol.principals),
    )


def policy_key(policy) -> tuple:
    return (
        bool(policy.readable),
        bool(policy.writable),
        bool(policy.append_only),
        policy.classification,
        tuple(sorted(policy.principals)),
    )


def is_dir_node(node) -> bool:
    return hasattr(node, "children")


def digest_real(vfs, *, contents: bool = True) -> dict[str, tuple]:
    """Everything observable about every node, through the public walk."""
    state: dict[str, tuple] = {}
    for path, node in vfs.walk("/"):
        key = str(path)
        if key in state:
            raise Violation(f"walk yields {key} twice")
        if is_dir_node(node):
            kind, text = "d", None
        else:
            kind = "f"
            try:
                text = node.read(vfs) if contents else None
            except SandboxError:
                text = None
        state[key] = (
            kind,
            text,
            policy_key(node.policy),
            tuple(sorted(node.metadata.items(), key=str)),
            node.version if kind == "f" else 0,
            node.created_at,
            node.modified_at,
        )
    return state


def diff(real: dict, model: dict, width: int = 5) -> str:
    lines = []
    for path in sorted(set(real) | set(model)):
        left, right = real.get(path), model.get(path)
        if left is not None:
            left = left[: len(right)] if right is not None else left[:5]
        if left != right:
            lines.append(f"  {path}: got {_short(left)} expected {_short(right)}")
    return "\n".join(lines[:width])


def _full_diff(real: dict, want: dict) -> str:
    lines = [f"  {path}: got {_short(real.get(path))} expected {_short(want.get(path))}"
             for path in sorted(set(real) | set(want)) if real.get(path) != want.get(path)]
    return "\n".join(lines[:5])


def _short(value) -> str:
    text = repr(value)
    return text if len(text) < 220 else text[:200] + "..." + text[-20:]


def plain_for_shell(text: str) -> bool:
    """Text that survives the shell's line splitting, variables and globbing unchanged."""
    return not any(ch in text for ch in "$*?[]") and len((text + "x").splitlines()) == 1


def q(text: str) -> str:
    return shlex.quote(text)


def expand(op):
    """The operations a bulk one stands for: ["bulk", kind, path, count, text]."""
    _, kind, base, count, text = op
    slash = "" if base.endswith("/") else "/"
    if kind == "files":
        for number in range(count):
            if number % 9 == 4:
                yield ["mkdir", f"{base}{slash}d{number}", True, True, "api"]
            else:
                yield ["write", f"{base}{slash}f{number}", f"{text}{number}", False, None, "api"]
    elif kind == "rewrite":
        for number in range(count):
            yield ["write", base, f"{text}{number}", False, "cur" if number % 5 == 2 else None, "api"]
    elif kind == "append":
        for _ in range(count):
            yield ["write", base, text, True, None, "api"]
    elif kind == "text":
        yield ["write", base, text * count + "last line", False, None, "api"]
    elif kind == "dirs":
        for number in range(count):
            yield ["write", f"{base}{slash}sub{number}/leaf", text, False, None, "api"]
    elif kind == "remove":
        for number in range(count):
            yield ["rm", f"{base}{slash}f{number}", False, "api"]
    elif kind == "shuffle":
        for number in range(count):
            yield ["mv", base if number % 2 == 0 else base + ".x", base + ".x" if number % 2 == 0 else base, "api"]
    else:
        raise AssertionError(kind)


class Sim:
    def __init__(self, obs, *, judge_storage=True, judge_storage_versions=True, probe_dir_adapter=True):
        self.obs = obs
        self.vfs = VirtualFileSystem()
        self.shell = SandboxShell(self.vfs)
        self.model = RefFS()
        self.snaps: list[tuple] = []
        self.stores: list[tuple[SpyStore, MStore, str | None]] = []
        self.hooks: list[tuple[str, list[tuple], list]] = []  # kind, prefixes it is registered at, event log
        self.shared: tuple | None = None  # one callable registered at several prefixes
        self.provs: list[Prov] = []
        self.recorded: dict[int, list] = {}  # what each recorder is known to hold
        self.judge_storage = judge_storage
        self.judge_storage_versions = judge_storage_versions
        self.probe_dir_adapter = probe_dir_adapter
        self.mirror = True  # adapters mirror the tree (until a restore or external change)
        self.history: list[str] = []
        self.tmp: list[str] = []
        self.indexed = False
        self.snap_digests: list[dict] = []
        self.before = digest_real(self.vfs)

    def close(self):
        for path in self.tmp:
            shutil.rmtree(path, ignore_errors=True)

    def fail(self, msg: str, key: str | None = None):
        raise Violation(f"{msg}\nafter: " + "; ".join(self.history[-12:]), key)

    # -- set-up -----------------------------------------------------------
    def add_store(self, kind: str, initial: dict[str, str]) -> int:
        if kind == "mem":
            inner = MemoryStorageAdapter(initial=dict(initial))
            where = None
        else:
            top = tempfile.mkdtemp(prefix="sandfs-store-")
            where = os.path.join(top, "data")  # the same last name everywhere
            os.mkdir(where)
            self.tmp.append(top)
            for rel, text in initial.items():
                full = pathlib.Path(where, rel)
                full.parent.mkdir(parents=True, exist_ok=True)
                full.write_bytes(text.encode("utf-8"))
            inner = FileSystemAdapter(pathlib.Path(where))
        self.stores.append((SpyStore(inner), MStore(kind, initial), where))
        return len(self.stores) - 1

    def add_hook(self, kind: str, prefix: str) -> None:
        log: list = []
        parts = self.model.lex(prefix)
        if kind == "s":
            if self.shared is None:
                log = []
                self.shared = ("p", [], log, log.append)
                self.hooks.append(self.shared[:3])
            self.vfs.register_path_hook(prefix, self.shared[3])
            self.shared[1].append(parts)
            return
        if kind == "w":
            self.vfs.register_write_hook(prefix, log.append)
        elif kind == "i":
            from sandfs.integrations import InboxRecorder

            recorder = InboxRecorder()
            recorder.attach(self.vfs, prefix)
            log = recorder.events
        else:
            self.vfs.register_path_hook(prefix, log.append)
        self.hooks.append((kind, [parts], log))

    @staticmethod
    def due(kind: str, prefixes, events) -> list[tuple]:
        """The events a hook is owed: one per registration whose prefix covers the path."""
        want = []
        for event in events:
            if event[0] == ("w" if kind == "w" else "p"):
                parts = tuple(part for part in event[1].split("/") if part)
                want.extend(event for prefix in prefixes if is_below(parts, prefix))
        return want

    def take_recorded(self, log, rows):
        """A recorder keeps what it recorded; only the new events are looked at."""
        known = self.recorded.setdefault(id(log), [])
        if rows[: len(known)] != known:
            self.fail(f"a recorder that held {len(known)} events no longer lists them: it has {_short(rows)}")
        new = rows[len(known):]
        known.extend(new)
        return new

    def take_events(self) -> list[list[tuple]]:
        taken = []
        for kind, _, log in self.hooks:
            rows = []
            for event in list(log):
                if kind == "w":
                    rows.append(("w", event.path, event.content, event.version, event.append))
                elif kind == "i":
                    rows.append(("p", event["path"], event["event"], event["content"]))
                else:
                    rows.append(("p", event.path, event.event, event.content))
            if kind == "i":
                rows = self.take_recorded(log, rows)
            else:
                log.clear()
            taken.append(rows)
        return taken

    # -- one operation on each side ------------------------------------------
    def expected_version(self, path: str, want):
        if not isinstance(want, str):
            return want
        node = self.model.find(self.model.lex(path))
        current = node.version if node is not None and node.kind == "f" else 0
        return {"cur": current, "stale": current - 1, "ahead": current + 1, "none": None}[want]

    def as_path(self, text: str, via: str):
        return PurePosixPath(text) if via == "posix" else text

    def real_op(self, op):
        """Returns (ok, value, error)."""
        name, vfs = op[0], self.vfs
        via = "api"
        if name in ("write", "touch", "mkdir", "rm", "mv", "cp", "cd"):
            via = op[-1]
        if via == "shell":
            command = self.command(op)
            if command is not None:
                result = self.shell.exec(command)
                self.obs.ev("operations through the shell")
                if result.exit_code == 0:
                    return True, result.stdout, None
                if not result.stderr:
                    self.fail(f"{command!r} failed without an error message")
                return False, None, result.stderr
        p = lambda text: self.as_path(text, via)  # noqa: E731
        try:
            if name == "write":
                _, path, data, append, want, _ = op
                kwargs = {}
                want = self.expected_version(path, want)
                if want is not None:
                    kwargs["expected_version"] = want
                if append == "append_file":
                    value = vfs.append_file(p(path), data, **kwargs)
                elif append:
                    value = vfs.write_file(p(path), data, append=True, **kwargs)
                else:
                    value = vfs.write_file(p(path), data, **kwargs)
            elif name == "touch":
                value = vfs.touch(p(op[1]))
            elif name == "mkdir":
                value = vfs.mkdir(p(op[1]), parents=op[2], exist_ok=op[3])
            elif name == "rm":
                value = vfs.remove(p(op[1]), recursive=op[2])
            elif name == "mv":
                value = vfs.move(p(op[1]), p(op[2]))
            elif name == "cp":
                value = vfs.copy(p(op[1]), p(op[2]), recursive=op[3])
            elif name == "cd":
                value = vfs.cd(p(op[1]))
            elif name == "policy":
                value = vfs.set_policy(op[1], real_policy(Pol(**op[2])))
            elif name == "meta":
                vfs.get_node(op[1]).metadata.update(op[2])
                value = None
            elif name == "mountf":
                value = vfs.mount_file(op[1], self.provs[-1], metadata=dict(op[5]) if op[5] else None)
            elif name == "mount":
                pol = real_policy(Pol(**op[3])) if op[3] else None
                value = vfs.mount_storage(op[1], self.stores[op[2]][0], policy=pol)
            elif name == "sync":
                value = vfs.sync_storage(op[1])
            elif name == "snap":
                value = vfs.snapshot()
            elif name == "restore":
                value = vfs.restore(self.snaps[op[1] % len(self.snaps)][0])
            else:
                raise AssertionError(name)
        except SandboxError as exc:
            return False, None, exc
        except Exception as exc:  # noqa: BLE001
            return False, None, exc
        return True, value, None

    def fault_fired(self) -> bool:
        return any(spy.fired for spy, _, _ in self.stores)

    def clone_model(self):
        memo = {id(prov): prov for prov in self.provs}
        return clone((self.model, [store for _, store, _ in self.stores], [m for _, m in self.snaps]), memo)

    def reinstate(self, saved) -> None:
        self.model, stores, snaps = saved
        self.stores = [(spy, store, where) for (spy, _, where), store in zip(self.stores, stores)]
        self.snaps = [(real, model) for (real, _), model in zip(self.snaps, snaps)]
        for spy, store, _ in self.stores:
            if spy.listed:  # a refused mount or sync may have looked: changes on disk count from then on
                store.looked()

    def command(self, op) -> str | None:
        name = op[0]
        if name == "write":
            _, path, data, append, want, _ = op
            if want not in (None, "none") or not plain_for_shell(data) or not plain_for_shell(path):
                return None
            style = (len(path) + len(data)) % 3
            if style == 0 or data.startswith("--"):
                return f"echo -n {q(data)} {'>>' if append else '>'} {q(path)}"
            if style == 1:
                return f"append {q(path)} {q(data)}" if append else f"write {q(path)} {q(data)}"
            return f"write {q(path)} {'--append ' if append else ''}--text {q(data)}"
        if not all(plain_for_shell(text) for text in op[1:-1] if isinstance(text, str)):
            return None
        if name == "touch":
            return f"touch {q(op[1])}"
        if name == "mkdir":
            if op[2] != op[3]:
                return None
            return f"mkdir {'-p ' if op[2] else ''}{q(op[1])}"
        if name == "rm":
            return f"rm {'-r ' if op[2] else ''}{q(op[1])}"
        if name == "mv":
            return f"mv {q(op[1])} {q(op[2])}"
        if name == "cp":
            return f"cp {'-r ' if op[3] else ''}{q(op[1])} {q(op[2])}"
        if name == "cd":
            return f"cd {q(op[1])}"
        return None

    def model_op(self, op):
        m, name = self.model, op[0]
        if name == "write":
            m.write(op[1], op[2], append=bool(op[3]), expected=self.expected_version(op[1], op[4]))
        elif name == "touch":
            m.touch(op[1])
        elif name == "mkdir":
            m.mkdir(op[1], parents=op[2], exist_ok=op[3])
        elif name == "rm":
            m.remove(op[1], recursive=op[2])
        elif name == "mv":
            m.move(op[1], op[2])
        elif name == "cp":
            m.copy(op[1], op[2], recursive=op[3])
        elif name == "cd":
            m.cd(op[1])
        elif name == "policy":
            m.set_policy(op[1], Pol(**op[2]))
        elif name == "meta":
            m.set_meta(op[1], op[2])
        elif name == "mountf":
            m.mount_file(op[1], self.provs[-1], op[5])
        elif name == "mount":
            m.mount_storage(op[1], self.stores[op[2]][1], Pol(**op[3]) if op[3] else None)
        elif name == "sync":
            m.sync(op[1])
        elif name == "snap":
            return m.snapshot()
        elif name == "restore":
            m.restore(self.snaps[op[1] % len(self.snaps)][1])
        else:
            raise AssertionError(name)
        return None

    # -- the step ------------------------------------------------------------
    def step(self, op) -> str:
        name = op[0]
        handler = getattr(self, "do_" + name, None)
        if handler is not None:
            self.history.append(_short(op))
            handler(op)
            return "ok"
        if name == "restore" and not self.snaps:
            return "skip"
        if name == "mount" and op[2] >= len(self.stores):
            return "skip"
        if name == "mount" and any(s is self.stores[op[2]][1] for s in self.model.mounts.values()):
            return "skip"
        if name == "mountf":
            self.provs.append(Prov(op[2], path_dependent=op[3], fail=op[4]))
        self.history.append(_short(op))
        before = self.before
        stores_before = [self.store_state(i) for i in range(len(self.stores))]
        armed = [spy for spy, _, _ in self.stores if spy.fail_plan]
        saved = self.clone_model() if armed or name in ("sync", "mount") else None
        for spy, _, _ in self.stores:
            spy.fired = 0
            spy.listed = False
        self.model.events = []
        # Versions asked for relative to the current one are fixed before either side moves.
        if name == "write":
            op = [*op[:4], self.expected_version(op[1], op[4]), op[5]]
        try:
            msnap = self.model_op(op)
            outcome = "ok"
        except RefusedPartly:
            outcome = "partly"
        except Refused:
            outcome = "refused"
        except Undefined as exc:
            outcome = "undefined"
            why = str(exc)
        ok, value, error = self.real_op(op)
        fired = self.fault_fired()
        if isinstance(error, Exception) and not isinstance(error, SandboxError) and not fired and outcome != "undefined":
            self.fail(f"{_short(op)} raised {type(error).__name__}: {error} instead of a sandbox error")
        for spy, _, _ in self.stores:
            spy.fail_plan.clear()
        after = digest_real(self.vfs)
        events = self.take_events()
        self.before = after
        self.obs.ev(f"{name} {outcome}")
        if outcome == "undefined":
            if not ok and name != "rm":
                if saved is not None:
                    self.reinstate(saved)
                self.judge_unchanged(before, after, events, stores_before, error)
            raise Inconclusive(why)
        if fired and not ok and outcome in ("ok", "partly"):
            # The injected storage failure was reported: nothing may have changed.
            self.obs.ev(f"storage faults reported by {name}")
            self.reinstate(saved)
            self.model.events = []
            if name == "rm" and op[2]:
                self.adopt_partial(op, after)
                self.judge_events(events)
            else:
                self.judge_unchanged(before, after, events, stores_before, error)
            outcome = "fault"
        elif outcome == "ok" and not ok:
            self.fail(f"{_short(op)} was refused ({error}) but has to succeed")
        if outcome in ("refused", "partly") and ok:
            self.fail(f"{_short(op)} succeeded but has to be refused")
        if outcome == "refused":
            if saved is not None:
                self.reinstate(saved)
            self.judge_unchanged(before, after, events, stores_before, error)
        elif outcome == "partly":
            self.adopt_partial(op, after)
            self.judge_events(events)
        elif outcome == "ok":
            if name == "snap":
                self.snaps.append((value, msnap))
                self.snap_digests.append(dict(before))
                if after != before:
                    self.fail("taking a snapshot changed the tree:\n" + diff(after, before))
            if name == "restore":
                want = self.snap_digests[op[1] % len(self.snap_digests)]
                if after != want:
                    self.fail("restored state differs from the snapshotted one:\n" + _full_diff(after, want))
                self.obs.ev("restores judged")
            if name in ("snap", "restore"):
                for number, state in enumerate(stores_before):
                    if self.store_state(number) != state:
                        self.fail(f"{name} changed storage {number}")
            self.judge_events(events)
        self.judge_state(after)
        if self.vfs.pwd() != self.model.cwd.path():
            self.fail(f"current directory is {self.vfs.pwd()}, expected {self.model.cwd.path()}")
        if self.judge_storage:
            self.judge_stores()
        self.obs.state(sorted((p, s[:5]) for p, s in after.items()))
        return outcome

    def judge_unchanged(self, before, after, events, stores_before, error):
        if before != after:
            self.fail(f"a refused operation ({error}) changed the tree:\n" + diff(after, before))
        if any(events):
            self.fail(f"a refused operation ({error}) delivered events {_short(events)}")
        for index, state in enumerate(stores_before):
            now = self.store_state(index)
            if now != state:
                self.fail(f"a refused operation ({error}) changed storage {index}: {_short(now)} was {_short(state)}")

    def adopt_partial(self, op, after):
        """A recursive removal stopped part way: what vanished must have been removable."""
        top = self.model.find(self.model.lex(op[1]))
        for node in list(top.walk()):
            path = node.path()
            if path in after:
                continue
            if self.model.find(node.parts()) is not node:
                continue  # already dropped with its parent
            if not self.model.removable(node):
                self.fail(f"recursive removal deleted protected {path}")
            self.model.drop(node)

    def judge_state(self, after):
        model = self.model.digest()
        trimmed = {path: state[:5] for path, state in after.items()}
        if trimmed != model:
            self.fail("the tree differs from the reference:\n" + diff(trimmed, model))

    def judge_events(self, events):
        for (kind, prefixes, _), got in zip(self.hooks, events):
            want = self.due(kind, prefixes, self.model.events)
            self.obs.ev("hook events delivered", len(got))
            if not self.same_events(got, want):
                self.fail(
                    f"hook {kind} at {[pstr(p) for p in prefixes]} received {_short(got)}, expected {_short(want)}"
                )

    @staticmethod
    def same_events(got, want) -> bool:
        if len(got) != len(want):
            return False
        rest = list(want)
        for event in got:
            for index, other in enumerate(rest):
                if event[0] != other[0] or event[1] != other[1]:
                    continue
                if event[0] == "p":
                    if other[2] is not None and event[2] != other[2]:
                        continue
                    if other[2] is None and event[2] not in ("create", "update"):
                        continue
                    if event[3] != other[3]:
                        continue
                elif tuple(event[2:]) != tuple(other[2:]):
                    continue
                del rest[index]
                break
            else:
                return False
        return not rest

    def store_state(self, index):
        spy, _, where = self.stores[index]
        if where is None:
            return {rel: (e.content, e.version) for rel, e in spy.inner.list().items()}
        return disk_entries(where)

    def judge_stores(self):
        for index, (spy, store, where) in enumerate(self.stores):
            state = self.store_state(index)
            want = dict(store.entries)
            self.obs.ev("storage states compared")
            if where is None:
                if not self.judge_storage_versions:
                    state = {rel: entry[0] for rel, entry in state.items()}
                    want = {rel: entry[0] for rel, entry in want.items()}
            else:
                want = {rel: entry[0] for rel, entry in want.items()}
            if state != want:
                self.fail(f"storage {index} holds {_short(state)}, expected {_short(want)}")
            if where is not None and self.probe_dir_adapter:
                listed = {rel: (e.content, e.version) for rel, e in spy.inner.list().items()}
                store.looked()
                if listed != store.entries:
                    self.fail(f"directory adapter lists {_short(listed)}, expected {_short(store.entries)}")

    # -- auxiliary operations ---------------------------------------------------
    def do_hook(self, op):
        self.add_hook(op[1], op[2])

    def do_store(self, op):
        self.add_store(op[1], op[2])

    def do_index(self, op):
        self.vfs.enable_full_text_index()
        self.indexed = True

    def do_fault(self, op):
        """Arm a one-shot storage failure for the next operation."""
        _, index, name, after, error = op
        if self.stores:
            for other, _, _ in self.stores:
                other.fail_plan.clear()  # single faults: undoing one failure may not meet a second
            spy = self.stores[index % len(self.stores)][0]
            spy.fail_plan[name] = after
            spy.error = {"os": StoreFault, "value": ValueError, "runtime": RuntimeError, "key": KeyError}[error]

    def do_ext(self, op):
        """Change storage behind the sandbox's back."""
        _, index, rel, body = op
        if not self.stores:
            return
        spy, store, where = self.stores[index % len(self.stores)]
        if where is None:
            entries = spy.inner.list()
            spy.inner.write(rel, body, version=entries[rel].version if rel in entries else 0)
        else:
            full = pathlib.Path(where, rel)
            if full.is_dir() or any(p.is_file() for p in full.parents if p != full):
                raise Inconclusive("external change collides with a directory")
            stamp = full.stat().st_mtime_ns if full.exists() else None
            full.parent.mkdir(parents=True, exist_ok=True)
            full.write_bytes(body.encode("utf-8"))
            if stamp is not None:
                os.utime(full, ns=(stamp + 5_000_000, stamp + 5_000_000))
        try:
            store.external(rel, body)
        except Undefined as exc:
            raise Inconclusive(str(exc)) from None
        self.obs.ev("external storage changes")

    def do_extdel(self, op):
        """Delete a stored entry behind the sandbox's back (a sync follows)."""
        _, index, rel = op
        if not self.stores:
            return
        spy, store, where = self.stores[index % len(self.stores)]
        if rel not in store.entries:
            return
        if where is None:
            spy.inner.delete(rel)
        else:
            os.unlink(pathlib.Path(where, rel))
        store.external_delete(rel)
        self.obs.ev("external storage deletions")

    def do_polmut(self, op):
        """Change a policy object in place; only that node may notice."""
        _, path, field, value = op
        node = self.model.find(self.model.lex(path))
        if node is None:
            return
        live = self.vfs.get_policy(path)
        twin = node.pol.clone()
        if field == "principals":
            live.principals.add(value)
            twin.principals = twin.principals | {value}
            # The default shell does not see nodes restricted to principals: carry on as that principal.
            self.shell = SandboxShell(self.vfs, view=VisibilityView(principals={value}))
        else:
            setattr(live, field, value)
            setattr(twin, field, value)
        node.pol = twin
        self.before = digest_real(self.vfs)
        self.judge_state(self.before)

    def do_bulk(self, op):
        """Many operations in a row, each judged for its outcome and events, the state once at the end."""
        for sub in expand(op):
            if sub[0] == "write":
                sub = [*sub[:4], self.expected_version(sub[1], sub[4]), sub[5]]
            self.model.events = []
            try:
                self.model_op(sub)
                refused = False
            except RefusedPartly:
                raise Inconclusive("partial removal in bulk") from None
            except Refused:
                refused = True
            except Undefined as exc:
                raise Inconclusive(str(exc)) from None
            ok, _, error = self.real_op(sub)
            if ok == refused:
                self.fail(f"{_short(sub)} in {_short(op)}: " + ("succeeded but has to be refused" if ok else f"was refused ({error}) but has to succeed"))
            if isinstance(error, Exception) and not isinstance(error, SandboxError):
                self.fail(f"{_short(sub)} raised {type(error).__name__}: {error} instead of a sandbox error")
            if refused:
                self.model.events = []
            self.judge_events(self.take_events())
            self.obs.ev("bulk operations judged")
        self.before = digest_real(self.vfs)
        self.judge_state(self.before)
        if self.judge_storage:
            self.judge_stores()
        self.obs.state(_short(op), len(self.before), sum(len(str(state)) for state in self.before.values()))

    def do_script(self, op):
        """Several commands in one exec: effects and events in order, stopping at the first failure."""
        lines, ordered = [], []
        stopped = False
        for sub in op[1]:
            command = self.command(sub)
            if command is None:
                continue
            lines.append(command)
            if stopped:
                continue
            self.model.events = []
            try:
                self.model_op(sub)
            except RefusedPartly:
                raise Inconclusive("partial removal inside a script") from None
            except Refused:
                stopped = True
            except Undefined as exc:
                raise Inconclusive(str(exc)) from None
            ordered.append(list(self.model.events))
        result = self.shell.exec("\n".join(lines))
        events = self.take_events()
        if (result.exit_code != 0) != stopped:
            self.fail(f"script {lines!r} exited {result.exit_code} {result.stderr!r}")
        self.before = digest_real(self.vfs)
        for (kind, prefixes, _), got in zip(self.hooks, events):
            rest = list(got)
            for group in ordered:
                want = self.due(kind, prefixes, group)
                if not self.same_events(rest[: len(want)], want):
                    self.fail(f"script {lines!r}: hook {kind} at {[pstr(p) for p in prefixes]} received {_short(got)}")
                rest = rest[len(want):]
            if rest:
                self.fail(f"script {lines!r}: hook {kind} at {[pstr(p) for p in prefixes]} received extra {_short(rest)}")
        self.obs.ev("scripts judged")
        self.judge_state(self.before)
        if self.judge_storage:
            self.judge_stores()

    def do_shsearch(self, op):
        """The search, grep and rg commands report exactly the reference matches, one per line."""
        _, query, regex, ignore_case, path = op
        if (self.indexed and self.provs) or any(prov.fail for prov in self.provs):
            return  # a failing provider fails the scan; an index holds dynamic text as of indexing: not specified
        if not plain_for_shell(query) or not plain_for_shell(path) or not path or path.startswith("-"):
            return
        if query.startswith("-"):
            return
        node = self.model.find(self.model.lex(path))
        ok = node is not None and node.pol.readable
        flags = ("-e " if regex else "") + ("-i " if ignore_case else "")
        rows = sorted(self.model.search(query, regex, ignore_case, path))
        flat = rows
        if node is not None and node.kind == "d":
            kids = {c.path() for c in node.children.values() if c.kind == "f"}
            flat = [r for r in rows if r[0] in kids]
        numbered = [f"{p}:{n}:{line}" for p, n, line in rows]
        bare = [f"{p}:{line}" for p, n, line in rows]
        asks = [
            (f"search {flags}{q(query)} {q(path)}", numbered),
            (f"search {flags}--no-line-number {q(query)} {q(path)}", bare),
            (f"rg -n {flags}{q(query)} {q(path)}", numbered),
            (f"rg {flags}{q(query)} {q(path)}", bare),
            (f"grep -r {flags}{q(query)} {q(path)}", bare),
            (f"grep -n {flags}{q(query)} {q(path)}", [f"{p}:{n}:{line}" for p, n, line in flat]),
        ]
        for command, want in asks:
            result = self.shell.exec(command)
            if (result.exit_code == 0) != ok:
                self.fail(f"{command!r} exited {result.exit_code} {result.stderr!r}, expected {'success' if ok else 'failure'}")
            if ok:
                self.obs.ev("search command outputs judged")
                got = sorted(result.stdout.split("\n")) if result.stdout else []
                if got != sorted(want):
                    self.fail(f"{command!r} (index {self.indexed}) printed {_short(got)}, expected {_short(sorted(want))}")

    def do_provfail(self, op):
        if self.provs:
            prov = self.provs[op[1] % len(self.provs)]
            prov.fail = op[2]
            self.before = digest_real(self.vfs)

    def do_search(self, op):
        """Searching agrees with matching the reference contents line by line."""
        _, query, regex, ignore_case, prefix = op
        if (self.indexed and self.provs) or any(prov.fail for prov in self.provs):
            return
        asked = SearchQuery(query, regex=regex, ignore_case=ignore_case,
                            path_prefix=None if prefix is None else PurePosixPath(prefix))
        got = sorted((str(r.path), r.line_no, r.line_text) for r in self.vfs.search(asked))
        want = sorted(self.model.search(query, regex, ignore_case, prefix if prefix is not None else "/"))
        self.obs.ev("searches judged")
        self.obs.ev("search matches judged", len(want))
        if got != want:
            extra = [r for r in got if r not in want][:4]
            lost = [r for r in want if r not in got][:4]
            self.fail(f"search {_short(op)} (index {self.indexed}): unexpected {_short(extra)}, missing {_short(lost)}, "
                      f"{len(got)} results for {len(want)}")

    def do_reads(self, op):
        """Every read-only call naming op[1] agrees with the model."""
        path, via = op[1], op[2]
        p = self.as_path(path, via)
        m, vfs = self.model, self.vfs
        parts = m.lex(path)
        node = m.find(parts)
        kind = None if node is None else node.kind
        self.obs.ev("read probes")
        readable = node is not None and node.pol.readable

        def ask(label, call, want_ok, want=None):
            try:
                got, ok = call(), True
            except SandboxError as exc:
                got, ok = exc, False
            if ok != want_ok:
                self.fail(f"{label}({path!r}) {'succeeded' if ok else f'was refused ({got})'}, expected the opposite")
            if ok and got != want:
                self.fail(f"{label}({path!r}) gave {_short(got)}, expected {_short(want)}")

        ask("exists", lambda: vfs.exists(p), True, node is not None)
        ask("is_dir", lambda: vfs.is_dir(p), True, kind == "d")
        ask("is_file", lambda: vfs.is_file(p), True, kind == "f")
        ask("get_node", lambda: str(vfs.get_node(p).path()), node is not None, pstr(parts))
        ask("get_policy", lambda: policy_key(vfs.get_policy(p)), node is not None, node and node.pol.key())
        text = None
        if kind == "f":
            try:
                text = node.read()
            except Refused:
                pass
        ask("read_file", lambda: vfs.read_file(p), kind == "f" and readable and text is not None, text)
        ask("get_version", lambda: vfs.get_version(p), kind == "f", node and node.version)
        def listing():
            rows = [(e.name, str(e.path), e.is_dir, tuple(sorted(e.metadata.items(), key=str)), policy_key(e.policy))
                    for e in vfs.ls(p)]
            return sorted(rows)
        want = None
        if kind == "d":
            want = sorted((c.name, c.path(), c.kind == "d", tuple(sorted(c.meta.items(), key=str)), c.pol.key())
                          for c in node.children.values())
        ask("ls", listing, kind == "d" and readable, want)
        ask("tree", lambda: vfs.tree(p), kind == "d" and readable, m.tree_text(node) if kind == "d" else None)
        if path:
            ask("walk", lambda: sorted(str(x) for x, _ in vfs.walk(p)), node is not None,
                sorted(n.path() for n in node.walk()) if node else None)
            ask("iter_files", lambda: sorted(str(x) for x, _ in vfs.iter_files(p)), readable,
                sorted(n.path() for n in node.files()) if node else None)
            flat = None
            if node is not None:
                flat = [n for n in node.children.values() if n.kind == "f"] if kind == "d" else [node]
                flat = sorted(n.path() for n in flat)
            ask("iter_files flat", lambda: sorted(str(x) for x, _ in vfs.iter_files(p, recursive=False)), readable, flat)

    def do_shreads(self, op):
        """Read-only shell commands naming op[1] agree with the model."""
        path = op[1]
        if not plain_for_shell(path) or path.startswith("-") or not path:
            return
        m = self.model
        parts = m.lex(path)
        node = m.find(parts)
        kind = None if node is None else node.kind
        readable = node is not None and node.pol.readable
        quoted = q(path)
        self.obs.ev("shell read probes")
        text = None
        if kind == "f":
            try:
                text = node.read()
            except Refused:
                pass

        def ask(command, ok, want=None):
            result = self.shell.exec(command)
            if (result.exit_code == 0) != ok:
                self.fail(f"{command!r} exited {result.exit_code} ({result.stderr!r}), expected "
                          f"{'success' if ok else 'failure'}")
            if ok and want is not None and result.stdout != want:
                self.fail(f"{command!r} printed {_short(result.stdout)}, expected {_short(want)}")
            return result

        has_text = kind == "f" and readable and text is not None
        ask(f"cat {quoted}", has_text, text)
        ask(f"cat < {quoted}", has_text, text)
        if has_text:
            ask(f"wc {quoted}", True, f"{len(text.splitlines())} {len(text.encode('utf-8'))} {path}")
            ask(f"head -n 3 {quoted}", True, "".join(text.splitlines(keepends=True)[:3]))
            ask(f"tail -n 2 {quoted}", True, "".join(text.splitlines(keepends=True)[-2:]))
        if kind == "d" and readable:
            ask(f"tree {quoted}", True, m.tree_text(node))
            result = ask(f"ls -l {quoted}", True)
            want = sorted(f"{'d' if c.kind == 'd' else '-'} {c.path()}" for c in node.children.values())
            if sorted(result.stdout.splitlines()) != want and result.stdout != "\n".join(want):
                self.fail(f"ls -l {path!r} printed {_short(result.stdout)}, expected {_short(want)}")
            result = ask(f"find {quoted}", True)
            want = sorted(n.path() for n in node.walk())
            if sorted(result.stdout.split("\n")) != want:
                self.fail(f"find {path!r} printed {_short(result.stdout)}, expected {_short(want)}")
        if node is None:
            for command in ("ls", "tree", "stat", "find", "wc", "head", "tail", "rm -r", "grep x"):
                ask(f"{command} {quoted}", False)
        else:
            result = ask(f"stat {quoted}", text is not None or kind == "d")
            if result.exit_code == 0 and f"File: {pstr(parts)}\n" not in result.stdout + "\n":
                self.fail(f"stat {path!r} printed {_short(result.stdout)}")
            if result.exit_code == 0 and kind == "f" and f"Vers: {node.version} " not in result.stdout:
                self.fail(f"stat {path!r} printed {_short(result.stdout)} for version {node.version}")

    def final(self):
        for node in list(self.model.root.walk()):
            self.do_reads(["reads", node.path(), "api"])
