"""C03: a refused operation changes nothing."""

import pathlib
import shutil
import tempfile

from ..core import Family, Violation
from ..gen import Gen, sizes
from ..sim import Sim, SpyStore

LEVEL = "fault_enumeration"
RULE = ("A case is a history in which policies, stale versions, failing content providers and one-shot storage failures "
        "(each adapter call, first to fifth occurrence, several exception types) strike arbitrary operations; around every "
        "refused call the whole tree with timestamps, versions and policies, every hook log, every store and searches are "
        "compared; writes through the directory adapter are also broken off by a file size limit and the files on disk compared byte for byte; "
        "observed: distinct tree states compared after a step.")
ASSUMPTIONS = ["a storage failure is reported by an exception and has no effect on the store itself",
               "the undo calls made after a failure do not fail again",
               "a disk that breaks off a write has room for what the file held before"]
REQUIRE = {"bulk operations judged": 50, "storage faults reported by write": 60, "storage faults reported by rm": 20, "storage faults reported by mv": 40,
           "storage faults reported by cp": 30, "storage faults reported by mount": 10, "storage faults reported by sync": 10,
           "write refused": 500, "mv refused": 500, "cp refused": 500, "searches judged": 300,
           "disk failures reported": 400, "disk writable again": 100}
QUICK_TIMES = 2.5


def with_observers(g, rng):
    if rng.random() < 0.5:
        g.add(["index"])
    for _ in range(rng.randint(0, 3)):
        g.add(g.make("hook"))


def gen_refusals(rng, index, tier):
    g = Gen(rng, fancy=0.25, big=False, expected=0.35, miss=0.3, via=(5, 1, 3),
            weights={"write": 8, "mkdir": 4, "mountf": 2, "meta": 1},
            polprob={"ro": 4, "ao": 3, "ur": 3, "none": 2, "all": 1})
    g.names = g.names[: rng.randint(2, 5)]
    with_observers(g, rng)
    g.run(len(g.ops) + rng.randint(4, 10))
    g.weights = {"write": 8, "append": 5, "touch": 3, "mkdir": 4, "rm": 4, "rmr": 3, "mv": 9, "cp": 7, "cpr": 5, "cd": 2,
                 "policy": 5, "mountf": 1, "provfail": 3, "search": 2, "snap": 1, "restore": 0.5}
    return {"ops": g.run(len(g.ops) + (rng.randint(8, 22) if tier == "quick" else rng.randint(15, 60)))}


def gen_faults(rng, index, tier):
    g = Gen(rng, fancy=0.1, big=False, expected=0.1, miss=0.08, via=(5, 0, 2),
            weights={"write": 8, "mkdir": 3}, polprob={"ro": 2, "ao": 1, "none": 3})
    g.names = g.names[: rng.randint(2, 5)]
    with_observers(g, rng)
    only_memory = rng.random() < 0.7
    for _ in range(rng.randint(1, 3)):
        store = g.make("store")
        if only_memory:
            store[1] = "mem"
        g.add(store)
        g.add(g.make("mount"))
    g.run(len(g.ops) + rng.randint(3, 8))
    g.weights = {"write": 7, "append": 4, "mkdir": 2, "rm": 4, "rmr": 4, "mv": 9, "cp": 6, "cpr": 5, "sync": 3,
                 "mount": 2, "store": 1, "policy": 1, "search": 2, "touch": 1}
    names, values = list(g.weights), list(g.weights.values())
    for _ in range(rng.randint(8, 20) if tier == "quick" else rng.randint(12, 40)):
        op = g.make(rng.choices(names, values)[0])
        if op is None:
            continue
        if op[0] == "store" and only_memory:
            op[1] = "mem"
        mounts = list(g.model.mounts)
        if mounts and op[0] in ("mv", "cp", "write", "rm") and rng.random() < 0.5:
            # Aim at a mount.
            spot = 2 if op[0] in ("mv", "cp") else 1
            inside = [n.parts() for m in mounts if g.model.find(m) for n in g.model.find(m).walk()]
            if inside and op[0] in ("mv", "cp", "rm"):
                if rng.random() < 0.5:
                    op[1] = "/" + "/".join(rng.choice(inside))
            if spot == 2 or op[0] == "write":
                op[spot] = "/" + "/".join((*rng.choice(mounts), rng.choice(g.names)))
        if rng.random() < 0.6 and op[0] != "store":
            fault = g.make("fault")
            if fault is not None:
                if op[0] == "write":
                    fault[2] = "write"
                elif op[0] == "rm":
                    fault[2] = "delete"
                elif op[0] in ("mount", "sync"):
                    fault[2] = "list"
                elif op[0] == "cp":
                    fault[2] = "write"
                if op[0] == "mount":
                    fault[1] = op[2]
                # Undoing a directory adapter's deletions cannot restore its version counter: known finding, probed apart.
                if not only_memory and fault[2] in ("delete", "read") and op[0] == "mv":
                    fault[2] = "write"
                before = len(g.ops)
                if not g.add(fault):
                    continue
                # The generator's shadow assumes the operation succeeds; when the fault strikes it does not. Both
                # outcomes are judged at run time, the shadow is only guidance.
                if not g.add(op):
                    del g.ops[before:]
                continue
        g.add(op)
    return {"ops": g.ops}


def run(case, obs):
    sim = Sim(obs)
    try:
        for op in case["ops"]:
            sim.step(op)
        sim.final()
    finally:
        sim.close()


def gen_undo(rng, index, tier):
    return {"files": rng.randint(2, 4), "at": 1}


def run_undo(case, obs):
    """Known finding: undoing a failed multi-file move out of a directory-backed mount resets the adapter's version."""
    from sandfs import FileSystemAdapter, VirtualFileSystem

    where = tempfile.mkdtemp(prefix="sandfs-undo-")
    try:
        spy = SpyStore(FileSystemAdapter(pathlib.Path(where)))
        vfs = VirtualFileSystem()
        vfs.mount_storage("/m", spy)
        for number in range(case["files"]):
            vfs.write_file(f"/m/d/f{number}", "one")
            vfs.write_file(f"/m/d/f{number}", "two")
        spy.fail_plan["delete"] = case["at"]
        try:
            vfs.move("/m/d", "/out")
        except Exception:  # noqa: BLE001
            obs.ev("failed multi-file moves out of a directory mount")
        else:
            raise Violation("the injected failure was not reported")
        for number in range(case["files"]):
            path = f"/m/d/f{number}"
            if not vfs.exists(path) or vfs.read_file(path) != "two":
                raise Violation(f"a failed move lost {path}")
            if (pathlib.Path(where) / "d" / f"f{number}").read_text() != "two":
                raise Violation(f"a failed move lost the stored {path}")
        for number in range(case["files"]):
            entry = spy.inner.read(f"d/f{number}")
            if entry.version != vfs.get_version(f"/m/d/f{number}"):
                raise Violation(f"after a failed move the adapter has version {entry.version} for d/f{number}, the tree "
                                f"{vfs.get_version(f'/m/d/f{number}')}", key="dir-undo-version")
    finally:
        shutil.rmtree(where, ignore_errors=True)


# -- large trees, texts and counts --------------------------------------------------------------------
def gen_sizes(rng, index, tier):
    """Refusals and storage failures late in a long run of files."""
    start = [["index"]] if rng.random() < 0.4 else []
    if rng.random() < 0.7:
        start += ["store", "mount"]
    weights = {"mv": 5, "cpr": 5, "write": 4, "rmr": 2, "sync": 1, "policy": 1}
    g = sizes(rng, start=[*start, ["hook", "p", "/"], ["hook", "w", "/"]], weights=weights, miss=0.3, expected=0.4, steps=(2, 4))
    for _ in range(4):
        if g.shadow.stores and rng.random() < 0.7:
            g.add(["fault", 0, rng.choice(["write", "delete", "list", "read"]), rng.choice([0, 3, 10, 20, 40, 64, 100]), rng.choice(["os", "value"])])
        g.add(g.make(rng.choices(list(weights), list(weights.values()))[0]))
    return {"ops": g.ops}


# -- a disk that takes no more ----------------------------------------------------------------------------------------------
def gen_disk(rng, index, tier):
    return {"files": {name: rng.choice(["", "short", "two\nlines\n", "é" * 20, "x" * 300]) for name in rng.sample(["a", "d/b", "d/e/c", "z"], rng.randint(0, 4))},
            "written": rng.random() < 0.5, "limit": rng.choice([1000, 2000, 4096, 8192, 10000, 50000]),
            "ops": [[rng.choice(["write", "append", "copy", "copyover", "move", "movedir", "copydir", "shell", "redirect", "expected"]), rng.choice(["a", "d/b", "d/e/c", "z", "new", "n/ew"]),
                     rng.choice([1, 20, 70000, 70000])] for _ in range(rng.randint(2, 5))]}


def run_disk(case, obs):
    """Writes through the directory adapter that the operating system breaks off part way."""
    import pathlib
    import resource
    import shutil
    import signal
    import tempfile

    from sandfs import FileSystemAdapter, SandboxShell, VirtualFileSystem
    from sandfs.search import SearchQuery

    from ..sim import digest_real

    root = pathlib.Path(tempfile.mkdtemp(prefix="sandfs-c03-"))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    try:
        for rel, body in case["files"].items():
            full = root / rel
            full.parent.mkdir(parents=True, exist_ok=True)
            full.write_bytes(body.encode())
        vfs = VirtualFileSystem()
        adapter = FileSystemAdapter(root)
        vfs.mount_storage("/m", adapter)
        shell = SandboxShell(vfs)
        vfs.enable_full_text_index()
        if case["written"]:
            for rel in case["files"]:
                vfs.append_file(f"/m/{rel}", "+")
        vfs.write_file("/big", "b" * 70000)
        vfs.write_file("/tree/s1", "small")
        vfs.write_file("/tree/s2", "b" * 70000)
        vfs.write_file("/tree/s3", "s" * 50)
        events = []
        vfs.register_path_hook("/", events.append)
        vfs.register_write_hook("/", events.append)

        def whole():
            on_disk = {path.relative_to(root).as_posix(): path.read_bytes() for path in root.rglob("*") if path.is_file()}
            entries = {rel: (entry.content, entry.version) for rel, entry in adapter.list().items()}
            return digest_real(vfs), on_disk, entries, vfs.search(SearchQuery("b")), vfs.pwd()

        for number, (op, rel, size) in enumerate(case["ops"]):
            body = f"{number}b" + "w" * size
            path = f"/m/{rel}"
            before = whole()
            events.clear()
            failed = None
            resource.setrlimit(resource.RLIMIT_FSIZE, (case["limit"], hard))
            try:
                if op == "write":
                    vfs.write_file(path, body)
                elif op == "expected":
                    vfs.write_file(path, body, expected_version=vfs.get_version(path) if vfs.is_file(path) else None)
                elif op == "append":
                    vfs.append_file(path, body)
                elif op in ("copy", "copyover"):
                    vfs.copy("/big", path if op == "copyover" or vfs.is_dir("/m/d") else "/m")
                elif op == "move":
                    vfs.move("/big", path)
                elif op == "movedir":
                    vfs.move("/tree", "/m")
                elif op == "copydir":
                    vfs.copy("/tree", f"/m/t{number}", recursive=True)
                else:
                    result = shell.exec(f"write {path} {body}" if op == "shell" else f"cat /big >> {path}")
                    failed = result.stderr if result.exit_code else None
            except Exception as exc:  # noqa: BLE001
                failed = exc
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            after = whole()
            obs.state(op, rel, size, case["limit"], bool(failed), sorted(case["files"]))
            if failed is None:
                files = {str(p)[3:]: node.read(vfs).encode() for p, node in vfs.iter_files("/m")}
                if files != after[1]:
                    raise Violation(f"{op} of {rel} succeeded, but the disk holds {short(after[1])}, the sandbox {short(files)}")
                continue
            obs.ev("disk failures reported" if isinstance(failed, OSError) else "other refusals")
            for what, old, new in zip(("tree", "files on disk", "storage entries", "search results", "current directory"), before, after):
                if old != new:
                    raise Violation(f"{op} of {rel} ({size} characters, the disk takes {case['limit']}) failed with {failed!r} but changed the {what}: "
                                    f"{short(old)} became {short(new)}")
            if events:
                raise Violation(f"{op} of {rel} failed with {failed!r} but delivered {events[:2]!r}"[:600])
            # the same operation goes through once there is room
            if isinstance(failed, OSError) and op in ("write", "append", "expected"):
                vfs.write_file(path, body[:50], append=op == "append")
                if (root / rel).read_bytes() != vfs.read_file(path).encode():
                    raise Violation(f"{op} of {rel} after a failed one left {short((root / rel).read_bytes())} on disk")
                obs.ev("disk writable again")
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        shutil.rmtree(root, ignore_errors=True)


def short(value):
    text = repr(value)
    return text if len(text) < 400 else text[:200] + " ... " + text[-180:]


def families():
    return [
        Family("refusals", 1500, 20000, gen_refusals, run),
        Family("faults", 1800, 20000, gen_faults, run),
        Family("sizes", 100, 1000, gen_sizes, run),
        Family("disk", 300, 4000, gen_disk, run_disk),
        Family("undo", 4, 4, gen_undo, run_undo),
    ]
