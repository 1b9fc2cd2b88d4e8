"""C09: hooks see every change exactly once, in order."""

from ..core import Family, Violation
from ..gen import Gen, sizes, text
from .simcommon import run_history

RULE = ("A case registers write and path hooks (and inbox recorders) at random prefixes, including sibling names sharing a "
        "textual prefix, and drives changes through the API and the shell; the events each hook received for every operation "
        "are compared with the expected ones; in further cases hooks themselves change other files while they run, and all hooks must be "
        "told of those changes too; observed: distinct tree states at which the event log was judged.")
ASSUMPTIONS = ["the order of the events of one recursive operation is not specified and not judged",
               "whether a write to a touched, provided or freshly loaded file is a create or an update is not judged"]
REQUIRE = {"bulk operations judged": 50, "hook events delivered": 5000, "mv ok": 300, "cp ok": 300, "rm ok": 300, "scripts judged": 300, "changes made by hooks": 3000,
           "nested events judged": 6000}
QUICK_TIMES = 4

SIBLINGS = ["a", "ab", "abc", "a.txt", "a.txt.bak", "b", "data", "data2", "dat", "Data", "é", "x y", "notes", "notes.md", ".hid"]


def gen_hooks(rng, index, tier):
    g = Gen(rng, names=SIBLINGS if rng.random() < 0.7 else None, fancy=0.2, miss=0.1, via=(5, 1, 4), big=rng.random() < 0.2,
            weights={"write": 6, "mkdir": 3})
    g.names = g.names[: rng.randint(3, 7)]
    for _ in range(rng.randint(1, 3)):
        g.add(g.make("hook"))
    if rng.random() < 0.5:
        g.add(["hook", rng.choice("wpi"), "/"])
    if rng.random() < 0.25:
        g.add(g.make("store"))
        g.add(g.make("mount"))
    if rng.random() < 0.2:
        g.add(["index"])
    g.run(len(g.ops) + rng.randint(2, 8))
    g.weights = {"write": 8, "append": 6, "touch": 2, "mkdir": 2, "rm": 4, "rmr": 3, "mv": 6, "cp": 5, "cpr": 3, "cd": 1,
                 "reads": 1, "shreads": 1, "policy": 1, "hook": 2, "script": 3, "mountf": 0.5, "snap": 0.4, "restore": 0.4,
                 "sync": 0.5, "search": 0.3}
    return {"ops": g.run(len(g.ops) + (rng.randint(8, 25) if tier == "quick" else rng.randint(15, 70)))}


INSIDE = ["write", "append", "new", "remove", "copy", "move", "same"]


def gen_nested(rng, index, tier):
    observers = [[rng.choice("wp"), rng.choice(["/", "/out", "/in", "/out/k1", "/ou", "/out/k1x"])] for _ in range(rng.randint(1, 4))]
    reactors = [[rng.choice("wp"), rng.choice(["/in", "/in", "/"]), [rng.choice(INSIDE) for _ in range(rng.randint(1, 4))]]
                for _ in range(rng.choice([1, 1, 1, 2]))]
    steps = [[rng.choice(["write", "append", "remove", "copy", "rmr", "shell", "write"]), rng.choice(["f", "g", "d/h"]), text(rng, big=False)]
             for _ in range(rng.randint(3, 8))]
    return {"observers": observers, "reactors": reactors, "steps": steps, "first": rng.random() < 0.5, "late": rng.random() < 0.4,
            "raise": rng.random() < 0.25, "index": rng.random() < 0.3}


def run_nested(case, obs):
    """Hooks that change files below /out when told of a change below /in; every hook hears of all of it, once."""
    from sandfs import SandboxShell, VirtualFileSystem

    vfs = VirtualFileSystem()
    shell = SandboxShell(vfs)
    if case["index"]:
        vfs.enable_full_text_index()
    vfs.write_file("/out/k1", "one")
    vfs.write_file("/out/k2", "two")
    vfs.mkdir("/in")
    truth = []  # what happened, in the order the changes were made: (change, seen by write hooks, seen by path hooks)
    logs = []
    depth = [0]
    armed = [case["raise"]]

    def did(path, event, content, append=None):
        truth.append((path, event, content, append))

    def put(path, data, append=False):
        old = vfs.read_file(path) if vfs.exists(path) else None
        did(path, "create" if old is None else "update", (old or "") + data if append else data, append)
        vfs.write_file(path, data, append=append)

    def drop(path):
        did(path, "delete", None)
        vfs.remove(path)

    def act(what, number):
        obs.ev("changes made by hooks")
        if what == "write":
            put("/out/k1", f"w{number}")
        elif what == "same":
            put("/out/k1", "same")
        elif what == "append":
            put("/out/log", f"l{number}\n", True)
        elif what == "new":
            put(f"/out/n{number}", "")
        elif what == "remove":
            drop("/out/k2") if vfs.exists("/out/k2") else put("/out/k2", "back")
        elif what == "copy":
            did("/out/k3", "create" if not vfs.exists("/out/k3") else "update", vfs.read_file("/out/k1"), False)
            vfs.copy("/out/k1", "/out/k3")
        else:
            put(f"/out/m{number}", "m")
            did(f"/out/m{number}", "delete", None)
            did(f"/out/o{number}", "create", "m", False)
            vfs.move(f"/out/m{number}", f"/out/o{number}")

    counter = [0]

    def reactor(spec):
        def hook(event):
            if event.path.startswith("/out") or depth[0]:
                return
            depth[0] += 1
            try:
                for what in spec[2]:
                    counter[0] += 1
                    act(what, counter[0])
                if armed[0]:
                    armed[0] = False
                    raise ValueError("hook error")
            finally:
                depth[0] -= 1
        return hook

    def observe(kind, prefix):
        log = []
        logs.append((kind, prefix, log, len(truth)))
        (vfs.register_write_hook if kind == "w" else vfs.register_path_hook)(prefix, log.append)

    def react():
        for spec in case["reactors"]:
            (vfs.register_write_hook if spec[0] == "w" else vfs.register_path_hook)(spec[1], reactor(spec))

    if case["first"]:
        react()
    for kind, prefix in case["observers"]:
        observe(kind, prefix)
    if not case["first"]:
        react()
    unsure = False
    for number, (what, name, body) in enumerate(case["steps"]):
        path = f"/in/{name}"
        try:
            if what == "remove":
                if vfs.exists(path):
                    drop(path)
            elif what == "rmr":
                for each in [str(p) for p, n in vfs.walk("/in") if not hasattr(n, "children")]:
                    did(each, "delete", None)
                kept = [str(p) for p, n in vfs.walk("/in")]
                if len(kept) > 1:
                    vfs.remove("/in", recursive=True)
                    vfs.mkdir("/in")
            elif what == "copy":
                if vfs.exists(path):
                    did(f"/in/c{number}", "create", vfs.read_file(path), False)
                    vfs.copy(path, f"/in/c{number}")
            elif what == "shell":
                old = vfs.exists(path)
                did(path, "update" if old else "create", "from the shell\n", False)
                if shell.exec(f"echo from the shell > {path}").exit_code != 0:
                    unsure = True
            else:
                put(path, body, what == "append")
        except ValueError:
            unsure = True  # hooks after the raising one may not be told of this change
        if unsure:
            obs.ev("interrupted by a hook")
            # What was not delivered is open; start a new page, on which everything is due again.
            for _, _, log, _ in logs:
                log.clear()
            truth.clear()
            logs[:] = [(kind, prefix, log, 0) for kind, prefix, log, _ in logs]
            unsure = False
            if not vfs.is_dir("/in"):
                vfs.mkdir("/in")
        if case["late"] and number == 1:
            observe("p", "/")
            observe("w", "/out")
        obs.state(number, repr(truth))
    for kind, prefix, log, since in logs:
        want = [t for t in truth[since:] if t[0] == prefix or t[0].startswith(prefix.rstrip("/") + "/")]
        if kind == "w":
            want = [(p, c, a) for p, e, c, a in want if e != "delete"]
            got = [(e.path, e.content, e.append) for e in log]
        else:
            want = [(p, e, c) for p, e, c, a in want]
            got = [(e.path, e.event, e.content) for e in log]
        obs.ev("nested events judged", len(want))
        if sorted(map(repr, got)) != sorted(map(repr, want)):
            raise Violation(f"the {kind} hook at {prefix} was told of {got}, the changes were {want}")
        for zone in ("/out",):
            a, b = ([t for t in x if t[0].startswith(zone)] for x in (got, want))
            if a != b:
                raise Violation(f"the {kind} hook at {prefix} was told of the changes hooks made as {a}, they were made as {b}")


def run(case, obs):
    run_history(case, obs)


# -- large trees, texts and counts --------------------------------------------------------------------
def gen_sizes(rng, index, tier):
    """Long runs of events, and many hooks."""
    start = ["store", "mount"] if rng.random() < 0.3 else []
    start += [["hook", kind, rng.choice(["/", "/", "/data", "/a"])] for kind in "wpi"]
    start += ["hook"] * rng.choice([0, 3, 9, 20, 40])
    return {"ops": sizes(rng, start=start, names=SIBLINGS if rng.random() < 0.6 else None).ops}


def families():
    return [Family("hooks", 2200, 30000, gen_hooks, run), Family("sizes", 60, 1000, gen_sizes, run), Family("nested", 700, 8000, gen_nested, run_nested)]
