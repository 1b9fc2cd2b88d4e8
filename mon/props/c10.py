"""C10: storage mounts mirror the adapter."""

import pathlib
import shutil
import tempfile

from ..core import Family, Violation
from ..gen import Gen, sizes
from .simcommon import run_history

from sandfs import FileSystemAdapter, MemoryStorageAdapter, VirtualFileSystem

RULE = ("A case mounts one to four memory or directory adapters, disjoint and nested, and drives writes, appends, copies, moves "
        "into, out of and between mounts, removals, external additions and syncs; after every step every mounted adapter's "
        "paths, contents and versions are compared with the reference; cases with several unwrapped adapters that start out alike (in one or "
        "two sandboxes) compare each mount with its own adapter; observed: distinct tree states compared.")
ASSUMPTIONS = ["mounts that share an adapter are synchronised before they are used, and no two adapters share a host directory", "no file occupies a mount point", "the keys of memory entries are plain relative paths (no \".\" or empty parts)"]
REQUIRE = {"adapters mounted twice compared": 1200, "bulk operations judged": 50, "mount ok": 800, "sync ok": 500, "mv ok": 500, "cp ok": 400, "storage states compared": 5000,
           "external storage changes": 200,
           "external storage deletions": 300, "alike adapters compared": 8000}
QUICK_TIMES = 3


def gen_mounts(rng, index, tier):
    g = Gen(rng, fancy=0.15, miss=0.07, via=(5, 1, 3), big=False, expected=0.1,
            weights={"write": 5, "mkdir": 3}, polprob={"cls": 3, "ro": 1, "ao": 1, "none": 2, "ur": 1})
    g.names = g.names[: rng.randint(3, 6)]
    if rng.random() < 0.3:
        g.add(["index"])
    g.run(len(g.ops) + rng.randint(0, 4))
    for _ in range(rng.randint(1, 4)):
        g.add(g.make("store"))
        g.add(g.make("mount"))
    g.weights = {"write": 8, "append": 5, "touch": 1, "mkdir": 2, "rm": 3, "rmr": 2, "mv": 8, "cp": 5, "cpr": 4, "cd": 1,
                 "policy": 2, "meta": 3, "sync": 4, "mount": 0.7, "ext": 2, "extdel": 1, "reads": 1, "search": 0.7, "script": 0.7}
    names, values = list(g.weights), list(g.weights.values())
    for _ in range(rng.randint(10, 25) if tier == "quick" else rng.randint(20, 80)):
        op = g.make(rng.choices(names, values)[0])
        if op is None:
            continue
        mounts = list(g.model.mounts)
        if mounts and op[0] in ("mv", "cp", "write") and rng.random() < 0.5:
            spot = 2 if op[0] in ("mv", "cp") else 1
            extra = (rng.choice(g.names),) if rng.random() < 0.7 else (rng.choice(g.names), rng.choice(g.names))
            op[spot] = g.sp((*rng.choice(mounts), *extra))
        g.add(op)
        if op[0] == "ext" and rng.random() < 0.85 and mounts:
            g.add(["sync", g.sp(min(mounts, key=len))])
        if op[0] == "extdel":
            store = g.shadow.stores[op[1]][1]
            g.add(["sync", g.sp(next(where for where, other in g.model.mounts.items() if other is store))])
    return {"ops": g.ops}


def run(case, obs):
    # The directory adapter is listed after every step in most cases, which also refreshes it, and left alone in others.
    run_history(case, obs, probe_dir_adapter=len(case["ops"]) % 3 != 0)


# -- adapters that look alike ----------------------------------------------------------------------------------------
RELS = ["f", "g", "d/f", "d/e/g"]


def gen_alike(rng, index, tier):
    start = {rel: rng.choice(["1", "one\n", ""]) for rel in rng.sample(RELS, rng.randint(0, 3))}
    count = rng.choice([2, 2, 3, 4])
    ops = []
    for _ in range(rng.randint(5, 14)):
        ops.append([rng.choice(["write", "write", "append", "rm", "mv", "cp", "sync", "ext", "remount", "touch"]), rng.randrange(count), rng.choice(RELS),
                    rng.randrange(count), rng.choice(RELS), rng.choice(["1", "one\n", "two", ""])])
    return {"kinds": [rng.choice(["mem", "mem", "dir"]) for _ in range(count)], "start": start, "two": rng.random() < 0.3, "ops": ops}


def run_alike(case, obs):
    """Each mount shows its own adapter, however much the adapters resemble one another."""
    top = tempfile.mkdtemp(prefix="sandfs-c10-")
    try:
        boxes = [VirtualFileSystem()]
        if case["two"]:
            boxes.append(VirtualFileSystem())
        spots, stores, want = [], [], []
        for number, kind in enumerate(case["kinds"]):
            if kind == "mem":
                store = MemoryStorageAdapter(dict(case["start"]))
            else:
                root = pathlib.Path(top, f"r{number}", "data")
                for rel, text in case["start"].items():
                    root.joinpath(rel).parent.mkdir(parents=True, exist_ok=True)
                    root.joinpath(rel).write_bytes(text.encode())
                store = FileSystemAdapter(root)
            spots.append((boxes[number % len(boxes)], f"/m{number}"))
            stores.append(store)
            want.append({rel: (text, 0) for rel, text in case["start"].items()})
            spots[-1][0].mount_storage(spots[-1][1], store)
        look(case, spots, stores, want, "mounting", obs)
        for what, a, rel, b, rel2, text in case["ops"]:
            (vfs, spot), mine, theirs = spots[a], want[a], want[b]
            path, other = f"{spot}/{rel}", f"{spots[b][1]}/{rel2}"
            if what in ("write", "append"):
                (vfs.write_file if what == "write" else vfs.append_file)(path, text)
                old = mine.get(rel, ("", 0))
                mine[rel] = (text if what == "write" else old[0] + text, old[1] + 1)
            elif what == "touch" and rel in mine:
                vfs.touch(path)
            elif what == "rm" and rel in mine:
                vfs.remove(path)
                del mine[rel]
            elif what in ("mv", "cp") and rel in mine and rel2 not in theirs and spots[b][0] is vfs and path != other:
                if not vfs.is_dir(f"{spots[b][1]}/{rel2}") and vfs.is_dir(other.rpartition("/")[0]):
                    (vfs.move if what == "mv" else vfs.copy)(path, other)
                    theirs[rel2] = (mine[rel][0], None)
                    if what == "mv":
                        del mine[rel]
            elif what == "ext":
                entry = stores[a].write(rel, text, version=stores[a].read(rel).version if rel in mine else 0)
                vfs.sync_storage(spot)
                mine[rel] = (text, entry.version)
            elif what == "sync":
                vfs.sync_storage(spot)
            elif what == "remount":
                vfs.mount_storage(spot, stores[a])
            for number, one in enumerate(want):  # the version a copied or moved file starts with is the subject of the other cases
                for key, (body, version) in list(one.items()):
                    if version is None:
                        one[key] = (body, stores[number].read(key).version)
            look(case, spots, stores, want, (what, a, rel, b, rel2, text), obs)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def look(case, spots, stores, want, after, obs):
    for number, (vfs, spot) in enumerate(spots):
        obs.ev("alike adapters compared")
        kept = {str(k).lstrip("/"): (e.content, e.version) for k, e in stores[number].list().items()}
        if kept != want[number]:
            raise Violation(f"after {after} adapter {number} of {case['kinds']} holds {kept}, expected {want[number]}")
        shown = {str(path)[len(spot) + 1:]: (vfs.read_file(str(path)), vfs.get_version(str(path))) for path, _ in vfs.iter_files(spot)}
        if shown != kept:
            raise Violation(f"after {after} mount {spot} of {case['kinds']} shows {shown}, its adapter holds {kept}")
        obs.state(number, after, sorted(kept.items()))


# -- one adapter at several places ------------------------------------------------------------------------------------
def gen_twice(rng, index, tier):
    start = {rel: rng.choice(["1", "one\n", ""]) for rel in rng.sample(RELS, rng.randint(0, 3))}
    ops = []
    for _ in range(rng.randint(4, 12)):
        ops.append([rng.choice(["write", "write", "append", "rm", "sync", "out", "in", "ext"]), rng.randrange(3), rng.choice(RELS), rng.choice(["1", "one\n", "two", ""])])
    return {"kind": rng.choice(["mem", "mem", "dir"]), "start": start, "spots": rng.choice([["/m", "/n"], ["/m", "/n", "/x/y"], ["/x/m", "/x/n"], ["/m", "/m/in"]]), "ops": ops}


def run_twice(case, obs):
    """What is done at one of its places reaches the adapter, and the others show it after they are synchronised."""
    top = tempfile.mkdtemp(prefix="sandfs-c10-")
    try:
        vfs, spots, want = VirtualFileSystem(), case["spots"], dict(case["start"])
        if case["kind"] == "mem":
            store = MemoryStorageAdapter(dict(case["start"]))
        else:
            for rel, text in case["start"].items():
                pathlib.Path(top, rel).parent.mkdir(parents=True, exist_ok=True)
                pathlib.Path(top, rel).write_bytes(text.encode())
            store = FileSystemAdapter(pathlib.Path(top))
        for spot in spots:
            vfs.mount_storage(spot, store)
        for count, (what, number, rel, text) in enumerate(case["ops"]):
            spot = spots[number % len(spots)]
            vfs.sync_storage(spot)  # a place is brought up to date before it is used, so that versions agree
            path = f"{spot}/{rel}"
            if what == "write" or what == "append":
                (vfs.write_file if what == "write" else vfs.append_file)(path, text)
                want[rel] = text if what == "write" else want.get(rel, "") + text
            elif what == "rm" and rel in want:
                vfs.remove(path)
                del want[rel]
            elif what == "out" and rel in want:
                vfs.mkdir("/plain", parents=True, exist_ok=True)
                vfs.move(path, f"/plain/o{count}")
                if vfs.read_file(f"/plain/o{count}") != want.pop(rel):
                    raise Violation(f"{path} moved out of a mount reads {vfs.read_file(f'/plain/o{count}')!r}")
            elif what == "in" and rel not in want and "/" not in rel:
                vfs.write_file(f"/plain/i{count}", text)
                vfs.move(f"/plain/i{count}", path)
                want[rel] = text
            elif what == "ext":
                store.write(rel, text, version=store.read(rel).version if rel in want else 0)
                want[rel] = text
            obs.ev("adapters mounted twice compared")
            kept = {str(k).lstrip("/"): e.content for k, e in store.list().items()}
            if kept != want:
                raise Violation(f"after {what} of {rel} at {spot}, one of {spots}, their common adapter holds {kept}, expected {want}")
            for other in spots:
                vfs.sync_storage(other)
                shown = {str(p)[len(other) + 1:]: vfs.read_file(str(p)) for p, _ in vfs.iter_files(other)}
                if "/m/in" in spots and other == "/m":
                    shown = {k: t for k, t in shown.items() if not k.startswith("in/")}
                if shown != want:
                    raise Violation(f"after {what} of {rel} at {spot} the mount {other} shows {shown}, the adapter holds {want}")
            obs.state("twice", spots, sorted(want.items()))
    finally:
        shutil.rmtree(top, ignore_errors=True)


# -- large trees, texts and counts --------------------------------------------------------------------
def gen_sizes(rng, index, tier):
    """Adapters with many, long, deep or large entries."""
    start = []
    for _ in range(rng.choice([1, 1, 2, 12])):
        count = rng.choice([0, 0, 11, 40, 101, 130, 260])
        initial = {f"e{number}" if number % 5 else f"s{number}/t/e": f"entry {number}" for number in range(count)}
        if rng.random() < 0.3:
            initial["/".join(f"l{level}" for level in range(rng.choice([9, 17, 33, 65])))] = "deep"
        if rng.random() < 0.3:
            initial["n" * rng.choice([33, 65, 129, 255])] = "x" * rng.choice([10, 4097, 65537])
        start += [["store", rng.choice(["mem", "mem", "dir"]), initial], "mount"]
    weights = {"write": 3, "append": 2, "mv": 4, "cpr": 2, "rm": 2, "rmr": 1, "sync": 3, "ext": 2}
    return {"ops": sizes(rng, start=start, weights=weights, steps=(3, 6)).ops}


def families():
    return [Family("twice", 250, 3000, gen_twice, run_twice), Family("alike", 500, 5000, gen_alike, run_alike), Family("sizes", 50, 800, gen_sizes, run), Family("mounts", 1500, 18000, gen_mounts, run)]
