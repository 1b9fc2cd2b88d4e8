"""C11: external changes to storage are never silently overwritten."""

import os
import pathlib
import shutil
import tempfile

from ..core import Family, Violation
from ..gen import Gen, text
from ..model import MStore
from .simcommon import run_history

from sandfs import FileSystemAdapter, MemoryStorageAdapter, VirtualFileSystem
from sandfs.exceptions import SandboxError

RULE = ("A case mixes sandbox operations on memory- and directory-backed mounts with changes made behind the sandbox's back, "
        "single and repeated, before and between writes, appends, copies, moves and syncs; the reference tracks the version each "
        "side knows and says which writes conflict; adapters are also driven directly with correct and wrong versions; observed: "
        "distinct tree and adapter states.")
ASSUMPTIONS = ["changes on disk come with a new modification time", "external deletions are outside this property"]
REQUIRE = {"external storage changes": 1500, "conflicts refused": 500, "writable again after sync": 400, "direct writes judged": 3000,
           "direct conflicts judged": 1000}
QUICK_TIMES = 5


def gen_mounted(rng, index, tier):
    g = Gen(rng, fancy=0.1, miss=0.05, via=(6, 1, 2), big=False, expected=0.05)
    g.names = g.names[: rng.randint(3, 5)]
    for _ in range(rng.randint(1, 2)):
        g.add(g.make("store"))
        g.add(g.make("mount"))
    g.weights = {"write": 5, "append": 3, "ext": 6, "sync": 2, "rm": 1, "mv": 1, "cp": 2, "touch": 0.5, "reads": 0.5, "mkdir": 0.5}
    return {"ops": g.run(len(g.ops) + (rng.randint(10, 26) if tier == "quick" else rng.randint(20, 80)))}


def run_mounted(case, obs):
    run_history(case, obs, probe_dir_adapter=False)


# -- one conflict, all the ways to write --------------------------------------------------
def gen_conflict(rng, index, tier):
    case = conflict(rng)
    if rng.random() < 0.3:  # changed to texts of the same length
        was = f"version {case['writes'] - 1}" if case["writes"] else case["first"]
        case["exts"] = [chr(65 + i) + was[1:] for i in range(len(case["exts"]))] if was else case["exts"]
    return case


def conflict(rng):
    return {"later": rng.choice([3_000_000, 3_000_000, 400_000, 10_000, 2_000_000_000, -4_000_000]), "kind": rng.choice(["mem", "dir"]), "first": text(rng, big=False), "writes": rng.randint(0, 3), "loaded": rng.random() < 0.6,
            "mount": rng.choice(["/m", "/a/b/c"]), "rel": rng.choice(["f", "d/f", "d/e/é f"]), "same": rng.random() < 0.2,
            "exts": [text(rng, big=False) + f"#{i}" for i in range(rng.randint(1, 3))],
            "how": rng.choice(["write", "append", "append_file", "expected", "copy", "shell", "redirect"]),
            "elsewhere": rng.random() < 0.5, "syncs": rng.randint(1, 2), "body": "mine " + text(rng, big=False)}


def run_conflict(case, obs):
    from sandfs import SandboxShell

    where = None
    rel, path = case["rel"], case["mount"] + "/" + case["rel"]
    try:
        if case["kind"] == "mem":
            store = MemoryStorageAdapter(initial={rel: case["first"]} if case["loaded"] else {})
        else:
            where = tempfile.mkdtemp(prefix="sandfs-c11-")
            if case["loaded"]:
                full = pathlib.Path(where, rel)
                full.parent.mkdir(parents=True, exist_ok=True)
                full.write_bytes(case["first"].encode())
            store = FileSystemAdapter(pathlib.Path(where))
        vfs = VirtualFileSystem()
        vfs.mount_storage(case["mount"], store)
        shell = SandboxShell(vfs)
        if not case["loaded"]:
            vfs.write_file(path, case["first"])
        for number in range(case["writes"]):
            vfs.write_file(path, f"version {number}")
        vfs.write_file("/donor", case["body"])
        log = []
        vfs.register_path_hook("/", log.append)
        for body in case["exts"]:
            external(case, store, where, rel, body)
            if case["elsewhere"]:
                vfs.write_file(case["mount"] + "/other", "x")
        log.clear()
        before = (vfs.read_file(path), vfs.get_version(path))
        outside = stored(store, where, rel)

        def attempt():
            how = case["how"]
            if how == "write":
                vfs.write_file(path, case["body"])
            elif how == "append":
                vfs.write_file(path, case["body"], append=True)
            elif how == "append_file":
                vfs.append_file(path, case["body"])
            elif how == "expected":
                vfs.write_file(path, case["body"], expected_version=vfs.get_version(path))
            elif how == "copy":
                vfs.copy("/donor", path)
            else:
                from ..world import q
                line = f"write {q(path)} mine" if how == "shell" else f"echo mine >> {q(path)}"
                result = shell.exec(line)
                if result.exit_code != 0:
                    raise SandboxError(result.stderr)

        for _ in range(2):
            try:
                attempt()
            except SandboxError:
                obs.ev("conflicts refused")
            else:
                raise Violation(f"{case['how']} over an external change succeeded; storage held {outside!r}, now {stored(store, where, rel)!r}")
            if (vfs.read_file(path), vfs.get_version(path)) != before:
                raise Violation(f"refused {case['how']} changed the sandbox side: {before!r} -> {(vfs.read_file(path), vfs.get_version(path))!r}")
            if stored(store, where, rel) != outside:
                raise Violation(f"refused {case['how']} changed the storage side: {outside!r} -> {stored(store, where, rel)!r}")
            if log:
                raise Violation(f"refused {case['how']} delivered {log!r}")
        for _ in range(case["syncs"]):
            vfs.sync_storage(case["mount"])
        if vfs.read_file(path) != case["exts"][-1]:
            raise Violation(f"after the sync the file shows {vfs.read_file(path)!r}, storage holds {case['exts'][-1]!r}")
        version = vfs.get_version(path)
        if store.read(rel).version != version or store.list()[rel].version != version:
            raise Violation(f"after the sync the file has version {version}, storage {store.read(rel).version}")
        try:
            attempt()
        except SandboxError as exc:
            raise Violation(f"{case['how']} after the sync is still refused: {exc}") from None
        if vfs.get_version(path) != version + 1 or store.read(rel).version != version + 1:
            raise Violation(f"versions after the write: sandbox {vfs.get_version(path)}, storage {store.read(rel).version}, before {version}")
        if store.read(rel).content != vfs.read_file(path):
            raise Violation("the write after the sync did not reach storage")
        obs.ev("writable again after sync")
        obs.state(case["kind"], case["how"], case["exts"], case["writes"], rel)
    finally:
        if where:
            shutil.rmtree(where, ignore_errors=True)


def external(case, store, where, rel, body):
    if where is None:
        entry = store.read(rel)
        store.write(rel, body, version=entry.version)
        return
    full = pathlib.Path(where, rel)
    stamp = full.stat().st_mtime_ns
    if case["same"]:
        other = full.with_name("swap-in")
        other.write_bytes(body.encode())
        os.utime(other, ns=(stamp - 7_000_000_000, stamp - 7_000_000_000))  # an older file moved into place
        os.replace(other, full)
    else:
        full.write_bytes(body.encode())
        later = stamp + case.get("later", 3_000_000)
        os.utime(full, ns=(later, later))


def stored(store, where, rel):
    if where is None:
        entry = store.read(rel)
        return entry.content, entry.version
    return pathlib.Path(where, rel).read_bytes()


# -- adapters on their own ------------------------------------------------------------------
NAMES = ["a", "b.txt", "d/a", "d/b", "d/e/é", "x y/z", "A"]


def gen_direct(rng, index, tier):
    ops = []
    for _ in range(rng.randint(8, 25) if tier == "quick" else rng.randint(20, 90)):
        name = rng.choice(NAMES)
        what = rng.choices(["write", "read", "list", "delete", "ext"], [6, 2, 2, 1, 2])[0]
        ops.append([what, name, rng.random(), text(rng, big=False), rng.choice(["cur", "cur", "cur", -1, 1, 2])])
    return {"kind": rng.choice(["mem", "dir"]), "initial": {n: text(rng, big=False) for n in rng.sample(NAMES, 2)}, "ops": ops}


def spell(name, pick):
    parts = name.split("/")
    return [name, name, name, "/" + name, "./" + name, "/" + "//".join(parts), "zz/../" + name, name.replace("/", "/./"),
            "d/../" + name][int(pick * 9)]


def run_direct(case, obs):
    model = MStore(case["kind"], case["initial"])
    where = None
    try:
        if case["kind"] == "mem":
            store = MemoryStorageAdapter(initial=case["initial"])
        else:
            where = tempfile.mkdtemp(prefix="sandfs-c11-")
            for rel, body in case["initial"].items():
                full = pathlib.Path(where, rel)
                full.parent.mkdir(parents=True, exist_ok=True)
                full.write_bytes(body.encode())
            store = FileSystemAdapter(pathlib.Path(where))
        for what, name, pick, body, version in case["ops"]:
            path = spell(name, pick) if where else name
            if where and "zz" in path:
                pathlib.Path(where, "zz").mkdir(exist_ok=True)
            if where and path.startswith("d/../"):
                pathlib.Path(where, "d").mkdir(exist_ok=True)
            current = model.version(name)
            if what == "write":
                given = (current or 0) + (version if isinstance(version, int) else 0)
                if current is None:
                    given = 0
                ok = model.can_write(name, given)
                try:
                    entry = store.write(path, body, version=given)
                    done = True
                except ValueError:
                    done = False
                obs.ev("direct writes judged")
                if done != ok:
                    raise Violation(f"write {path!r} with version {given} {'succeeded' if done else 'was refused'}; the entry is at {current}")
                if not ok:
                    obs.ev("direct conflicts judged")
                else:
                    model.write(name, body, given)
                    if (entry.content, entry.version) != (body, given + 1):
                        raise Violation(f"write {path!r} returned {entry}")
            elif what == "read":
                model.pending.discard(name)
                model.seen.add(name)
                try:
                    entry = store.read(path)
                    got = (entry.content, entry.version)
                except FileNotFoundError:
                    got = None
                if got != model.entries.get(name):
                    raise Violation(f"read {path!r} gave {got!r}, expected {model.entries.get(name)!r}")
            elif what == "delete":
                store.delete(path)
                model.delete(name)
            elif what == "ext":
                if current is None:
                    continue
                if where is None:
                    store.write(name, body, version=store.read(name).version)
                else:
                    full = pathlib.Path(where, name)
                    stamp = full.stat().st_mtime_ns
                    full.write_bytes(body.encode())
                    os.utime(full, ns=(stamp + 3_000_000, stamp + 3_000_000))
                model.external(name, body)
                obs.ev("external storage changes")
            if what == "list":
                got = {rel: (e.content, e.version) for rel, e in store.list().items()}
                model.looked()
                if got != model.entries:
                    raise Violation(f"list gave {got!r}, expected {model.entries!r}")
                obs.ev("direct listings judged")
            obs.state(case["kind"], sorted(model.entries.items()))
    finally:
        if where:
            shutil.rmtree(where, ignore_errors=True)


def families():
    return [Family("mounted", 900, 9000, gen_mounted, run_mounted), Family("conflict", 900, 9000, gen_conflict, run_conflict),
            Family("direct", 700, 8000, gen_direct, run_direct)]
