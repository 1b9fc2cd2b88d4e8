"""C13: restoring a snapshot brings back exactly that state."""

from ..core import Family
from ..gen import Gen, sizes
from .simcommon import run_history

RULE = ("A case interleaves changes (contents, policies changed by replacement and in place, metadata, moves, mounts, dynamic "
        "files) with snapshots and restores in any order, and compares the full state with timestamps after each restore with "
        "the one recorded when the snapshot was taken; observed: distinct tree states compared.")
ASSUMPTIONS = ["metadata values are opaque (immutable) to sandfs"]
REQUIRE = {"bulk operations judged": 50, "restores judged": 1500, "snap ok": 1500, "searches judged": 300, "times after restore judged": 500}
QUICK_TIMES = 5


def gen_snaps(rng, index, tier):
    g = Gen(rng, fancy=0.15, miss=0.08, via=(6, 1, 2), big=False,
            weights={"write": 6, "mkdir": 4, "policy": 2, "meta": 2, "cd": 1},
            polprob={"cls": 2, "ro": 3, "ao": 2, "none": 1, "ur": 2, "all": 1})
    g.names = g.names[: rng.randint(3, 6)]
    if rng.random() < 0.4:
        g.add(["index"])
    if rng.random() < 0.4:
        g.add(g.make("hook"))
    if rng.random() < 0.3:
        g.add(g.make("store"))
        g.add(g.make("mount"))
    if rng.random() < 0.3:
        g.weights["mountf"] = 2
    g.run(len(g.ops) + rng.randint(3, 12))
    g.add(["snap"])
    g.weights = {"write": 5, "append": 3, "touch": 1, "mkdir": 2, "rm": 3, "rmr": 3, "mv": 4, "cp": 3, "cpr": 2, "cd": 2,
                 "policy": 3, "polmut": 4, "meta": 3, "snap": 3, "restore": 5, "mountf": 0.5, "search": 1, "reads": 1,
                 "store": 0.4, "mount": 0.8, "sync": 0.3, "script": 0.3, "index": 0.1}
    ops = g.run(len(g.ops) + (rng.randint(8, 22) if tier == "quick" else rng.randint(15, 70)))
    if g.shadow.snaps and rng.random() < 0.8:
        for number in range(min(3, len(g.shadow.snaps))):
            g.add(["restore", rng.randrange(12)])
            g.add(["restore", number])
            g.add(g.make("search"))
    return {"ops": ops}


def run(case, obs):
    run_history(case, obs)


def gen_view(rng, index, tier):
    return {"texts": [rng.choice(["alpha\nbeta\n", "beta", "gamma alpha", ""]) for _ in range(4)], "enable": rng.choice(["before", "after"]),
            "index": rng.random() < 0.5, "query": rng.choice(["alpha", "beta", "zzz"]), "prefix": rng.choice(["/@search", "/find/it"]),
            "rounds": rng.randint(1, 3), "near": rng.sample(["/@searches/f", "/@search-notes", "/@search.md", "/find/items", "/find/it2/deep/f", "/find/other", "/fin",
                                                             "/w/@search/f", "/@searcH", "/find/i t"], 4)}


def run_view(case, obs):
    """The search view keeps answering, from the restored contents, after a restore."""
    from sandfs import SandboxShell, VirtualFileSystem

    from ..core import Violation

    vfs = VirtualFileSystem()
    shell = SandboxShell(vfs)
    for number, body in enumerate(case["texts"]):
        vfs.write_file(f"/w/d{number % 2}/f{number}", body)
    for number, path in enumerate(case["near"]):
        vfs.write_file(path, f"near {number}\n")
        vfs.append_file(path, "more")
    if case["enable"] == "before":
        vfs.enable_search_view(case["prefix"])
    if case["index"]:
        vfs.enable_full_text_index()
    snap = vfs.snapshot()
    if case["enable"] == "after":
        vfs.enable_search_view(case["prefix"])
    for number in range(case["rounds"]):
        shell.exec(f"cat {case['prefix']}?q={case['query']}/w")
        vfs.write_file("/w/new", case["query"])
        vfs.remove("/w/d0", recursive=True)
        vfs.restore(snap)
        want = sorted(f"{case['prefix']}/w/d{i % 2}/f{i}" for i, body in enumerate(case["texts"]) if case["query"] in body)
        result = shell.exec(f"find {case['prefix']}?q={case['query']} -type f")
        got = sorted(result.stdout.split("\n")) if result.stdout else []
        obs.ev("search view after restore judged")
        obs.state(case["texts"], case["query"], number)
        for at, path in enumerate(case["near"]):
            if not vfs.is_file(path) or (vfs.read_file(path), vfs.get_version(path)) != (f"near {at}\nmore", 2):
                raise Violation(f"after restore {path} (beside the search view {case['prefix']}) is {vfs.exists(path) and vfs.read_file(path)!r}")
        if result.exit_code != 0 or got != want:
            raise Violation(f"after restore the search view shows {got} ({result.stderr}), expected {want}")


# -- large trees, texts and counts --------------------------------------------------------------------
def gen_sizes(rng, index, tier):
    start = (["store", "mount"] if rng.random() < 0.2 else []) + [["index"]] * (rng.random() < 0.4)
    g = sizes(rng, start=start, steps=(1, 3))
    for _ in range(rng.choice([1, 2, 2, 3, 3, 12, 40])):
        g.add(["snap"])
        g.run(len(g.ops) + rng.randint(0, 2))
    for _ in range(rng.randint(2, 5)):
        g.add(["restore", rng.randrange(60)])
        g.run(len(g.ops) + rng.randint(0, 2))
        g.add(g.make("search"))
    return {"ops": g.ops}


# -- the times nodes carry --------------------------------------------------------------------------------
def gen_times(rng, index, tier):
    paths = rng.sample(["/f", "/d", "/d/g", "/d/e/h", "/d/e", "/", "/k"], rng.randint(1, 6))
    stamp = lambda: rng.choice([0.0, 0.5, 1.0, 5.0, 1e9, 1e9 + 0.25, 1.7e9, 4e9, -3.0, rng.uniform(0, 2e9)])
    return {"set": [[p, stamp(), stamp()] for p in paths], "again": [[p, stamp(), stamp()] for p in rng.sample(paths, rng.randint(0, len(paths)))],
            "index": rng.random() < 0.3, "change": [rng.choice(["write", "rm", "append", "mv", "none"]) for _ in range(2)]}


def run_times(case, obs):
    """Nodes keep whatever times they carried, in any order, through snapshots and restores."""
    from sandfs import VirtualFileSystem

    from ..core import Violation

    vfs = VirtualFileSystem()
    for path in ("/f", "/d/g", "/d/e/h", "/k"):
        vfs.write_file(path, f"body {path}")
    if case["index"]:
        vfs.enable_full_text_index()

    def stamp(todo):
        for path, created, modified in todo:
            node = vfs.get_node(path)
            node.created_at, node.modified_at = created, modified

    def times():
        return {path: (vfs.get_node(path).created_at, vfs.get_node(path).modified_at) for path in ("/", "/f", "/d", "/d/g", "/d/e", "/d/e/h", "/k")}

    stamp(case["set"])
    taken = [(times(), vfs.snapshot())]
    stamp(case["again"])
    taken.append((times(), vfs.snapshot()))
    for change in case["change"]:
        if change == "write":
            vfs.write_file("/d/g", "other")
        elif change == "append":
            vfs.append_file("/f", "more")
        elif change == "rm" and vfs.exists("/d/e"):
            vfs.remove("/d/e", recursive=True)
        elif change == "mv" and vfs.exists("/k"):
            vfs.move("/k", "/moved")
        for want, snap in taken:
            vfs.restore(snap)
            got = times()
            obs.ev("times after restore judged", len(want))
            obs.state(sorted(want.items()), change)
            for path in want:
                if got[path] != want[path]:
                    raise Violation(f"after restore {path} has the times (created, modified) {got[path]}, had {want[path]} when the snapshot was taken")


def families():
    return [
        Family("times", 150, 2000, gen_times, run_times),
        Family("snapshots", 1600, 20000, gen_snaps, run),
        Family("sizes", 40, 600, gen_sizes, run),
        Family("searchview", 100, 500, gen_view, run_view),
    ]
