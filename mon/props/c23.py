"""C23: sandboxes, shells, copies and snapshots never share state."""

import copy as copy_mod
import tempfile
import shutil
import pathlib

from ..core import Family, Inconclusive, Violation
from ..gen import TEXTS, Gen
from ..model import Pol
from ..sim import Sim, _full_diff, _short, digest_real, q, real_policy

from sandfs import (  # noqa: E402
    FileSystemAdapter,
    MemoryStorageAdapter,
    NodePolicy,
    PythonExecutor,
    SandboxShell,
    SearchQuery,
    VirtualFileSystem,
    VisibilityView,
)

RULE = ("Cases interleave operations over several sandboxes (with storage, hooks, index and snapshots) and several shells per sandbox, restore one "
        "sandbox's snapshots into another, change originals and copies in place, mount one provider's nodes in several places, and change the values that were passed in or handed out; after every "
        "step everything observable of every sandbox, shell, copy, snapshot and adapter not operated on is compared with what it was. Counted: "
        "distinct multi-sandbox states compared.")
ASSUMPTIONS = ["values inside metadata are opaque and may be shared", "a policy object belongs to the node it was given to"]
REQUIRE = {"bystander sandboxes compared": 20000, "cross restores": 300, "copies changed in place": 2000, "originals changed in place": 2000,
           "snapshots changed in place": 150, "shell variables compared": 1500, "inputs changed afterwards": 1500, "outputs changed afterwards": 1500,
           "copied trees compared": 1500, "provided trees compared": 1000,
           "provided nodes changed": 3000}
QUICK_TIMES = 1.5


# -- several sandboxes at once -----------------------------------------------------------------------------------------
WEIGHTS = {"write": 8, "append": 3, "touch": 1, "mkdir": 4, "rm": 2, "rmr": 1, "mv": 3, "cp": 3, "cpr": 2, "cd": 2, "policy": 2, "meta": 2, "mountf": 1,
           "polmut": 2, "store": 1, "mount": 2, "sync": 1, "snap": 1, "restore": 1, "hook": 1, "index": 1, "search": 3}


def gen_worlds(rng, index, tier):
    count = rng.choice([2, 2, 3])
    names = shared = None
    worlds, setups = [], []
    for _ in range(count):
        g = Gen(rng, weights=WEIGHTS, fancy=0.2, big=False, miss=0.1, polprob={"ro": 2, "ao": 1, "ur": 1, "none": 3, "cls": 2})
        if names is None:
            names = g.names[:5]
            if rng.random() < 0.5:  # equal storage for all of them
                shared = ["store", rng.choice(["mem", "dir"]), {rng.choice(names): "x", "both/" + rng.choice(names): "text\n"}]
        g.names = names  # the same names everywhere, so that a mix-up shows
        if rng.random() < 0.5:
            g.add(["hook", rng.choice(["i", "i", "p", "w"]), "/"])
        if shared is not None:
            g.add([*shared])
            g.add(g.make("mount"))
        g.run(len(g.ops) + (rng.randint(5, 14) if tier == "quick" else rng.randint(10, 40)))
        worlds.append(g.ops)
        setups.append({"env": {f"V{rng.randrange(3)}": rng.choice(["x", "y"]) for _ in range(rng.randint(0, 2))}})
    ops = []
    cursors = [0] * count
    while any(cursors[i] < len(worlds[i]) for i in range(count)):
        pick = rng.choice([i for i in range(count) if cursors[i] < len(worlds[i])])
        if rng.random() < 0.25:
            ops.append([rng.randrange(count), "var", rng.randrange(2), f"V{rng.randrange(3)}", rng.choice(["p", "q", "r s", ""])])
        else:
            ops.append([pick, *worlds[pick][cursors[pick]]])
            cursors[pick] += 1
    return {"count": count, "setups": setups, "ops": ops}


def run_worlds(case, obs):
    sims, envs, shells = [], [], []
    template = {"SHARED": "s"}
    try:
        for setup in case["setups"]:
            sim = Sim(obs, probe_dir_adapter=len(case["ops"]) % 2 == 0)
            sims.append(sim)
            pair = [SandboxShell(sim.vfs, env={**setup["env"]}), SandboxShell(sim.vfs, env=template)]
            shells.append(pair)
            envs.append([dict(setup["env"]), {"SHARED": "s"}])
        for number, *op in case["ops"]:
            sim = sims[number]
            others = [s for s in sims if s is not sim]
            stores = [[s.store_state(i) for i in range(len(s.stores))] for s in others]
            calls = [[len(spy.calls) for spy, _, _ in s.stores] for s in others]
            pwds = [s.vfs.pwd() for s in others]
            if op[0] == "var":
                _, which, name, value = op
                result = shells[number][which].exec(f"{name}={q(value)}")
                if result.exit_code:
                    raise Violation(f"assignment failed: {result.stderr}")
                envs[number][which][name] = value
            else:
                try:
                    sim.step(op)
                except Inconclusive:
                    sim.before = digest_real(sim.vfs)
                    return
            for other, stored, called, pwd in zip(others, stores, calls, pwds):
                obs.ev("bystander sandboxes compared")
                if [len(spy.calls) for spy, _, _ in other.stores] != called and other.judge_storage:
                    raise Violation(f"{_short(op)} in one sandbox used the storage of another")
                now = digest_real(other.vfs)
                if now != other.before:
                    raise Violation(f"{_short(op)} in one sandbox changed another:\n" + _full_diff(now, other.before))
                if other.vfs.pwd() != pwd:
                    raise Violation(f"{_short(op)} in one sandbox changed another's current directory")
                if any(other.take_events()):
                    raise Violation(f"{_short(op)} in one sandbox delivered events of another")
                if [other.store_state(i) for i in range(len(other.stores))] != stored:
                    raise Violation(f"{_short(op)} in one sandbox changed the storage of another")
            for i, pair in enumerate(shells):
                for j, shell in enumerate(pair):
                    obs.ev("shell variables compared")
                    for name in ("V0", "V1", "V2", "SHARED"):
                        if shell.env.get(name) != envs[i][j].get(name):
                            raise Violation(f"after {_short(op)} variable {name} of shell {i}.{j} is {shell.env.get(name)!r}, "
                                            f"expected {envs[i][j].get(name)!r}")
                    if op[0] == "var":
                        got = shell.exec("echo -n ${V0}-${V1}-${V2}").stdout
                        want = "-".join(envs[i][j].get(f"V{k}", "") for k in range(3))
                        if got != want:
                            raise Violation(f"shell {i}.{j} expands to {got!r}, expected {want!r}")
            if template != {"SHARED": "s"}:
                raise Violation("a shell changed the dictionary its variables came from")
            obs.state([sorted((p, r[:5]) for p, r in s.before.items()) for s in sims])
        for sim in sims:
            sim.final()
    finally:
        for sim in sims:
            sim.close()


# -- snapshots carried from one sandbox to another -----------------------------------------------------------------------
def gen_cross(rng, index, tier):
    plain = {k: v for k, v in WEIGHTS.items() if k not in ("store", "mount", "sync", "restore", "hook", "snap")}
    lists = []
    names = None
    for _ in range(4):
        g = Gen(rng, weights=plain, fancy=0.1, big=False, miss=0.05, polprob={"ro": 1, "none": 3, "cls": 2, "ao": 1})
        names = names or g.names[:5]
        g.names = names
        g.run(rng.randint(4, 10))
        lists.append([op for op in g.ops if op[0] != "search"])
    return {"a": lists[0], "b": lists[1], "later_a": lists[2], "later_b": lists[3], "order": [rng.randrange(2) for _ in range(24)],
            "mutate": rng.random() < 0.5}


def play(vfs, op):
    """Run an operation; only its effects on bystanders matter here."""
    from sandfs.exceptions import SandboxError

    try:
        name = op[0]
        if name == "write":
            vfs.write_file(op[1], op[2], append=bool(op[3]))
        elif name == "touch":
            vfs.touch(op[1])
        elif name == "mkdir":
            vfs.mkdir(op[1], parents=op[2], exist_ok=op[3])
        elif name == "rm":
            vfs.remove(op[1], recursive=op[2])
        elif name == "mv":
            vfs.move(op[1], op[2])
        elif name == "cp":
            vfs.copy(op[1], op[2], recursive=op[3])
        elif name == "cd":
            vfs.cd(op[1])
        elif name == "policy":
            vfs.set_policy(op[1], real_policy(Pol(**op[2])))
        elif name == "meta":
            vfs.get_node(op[1]).metadata.update(op[2])
        elif name == "mountf":
            vfs.mount_file(op[1], lambda ctx, text=op[2]: text)
        elif name == "polmut":
            policy = vfs.get_policy(op[1])
            if op[2] == "principals":
                policy.principals.add(op[3])
            else:
                setattr(policy, op[2], op[3])
        elif name == "index":
            vfs.enable_full_text_index()
        return True
    except SandboxError:
        return False


def found(vfs):
    return sorted((str(r.path), r.line_no, r.line_text) for r in vfs.search(SearchQuery("")))


def run_cross(case, obs):
    a, b = VirtualFileSystem(), VirtualFileSystem()
    for op in case["a"]:
        play(a, op)
    for op in case["b"]:
        play(b, op)
    snap = a.snapshot()
    frozen = copy_mod.deepcopy({p: vars(n) for p, n in snap.nodes.items()}, {})
    was_a = digest_real(a)
    b.restore(snap)
    obs.ev("cross restores")
    if digest_real(a) != was_a:
        raise Violation("restoring into another sandbox changed the one the snapshot was taken from")
    if digest_real(b) != was_a:
        raise Violation("the second sandbox differs from the snapshot:\n" + _full_diff(digest_real(b), was_a))
    if b.pwd() != a.pwd() and a.is_dir(a.pwd()):
        raise Violation(f"restored current directory {b.pwd()}, expected {a.pwd()}")
    queues = [list(case["later_a"]), list(case["later_b"])]
    states = [(digest_real(a), a.pwd(), found(a)), (digest_real(b), b.pwd(), found(b))]
    for turn in case["order"]:
        if not queues[turn]:
            continue
        op = queues[turn].pop(0)
        changed, still = (a, b) if turn == 0 else (b, a)
        play(changed, op)
        obs.ev("bystander sandboxes compared")
        now = (digest_real(still), still.pwd(), found(still))
        if now != states[1 - turn]:
            raise Violation(f"after a restore from the other sandbox, {_short(op)} there changed this one:\n" + _full_diff(now[0], states[1 - turn][0]))
        states[turn] = (digest_real(changed), changed.pwd(), found(changed))
        obs.state([sorted((p, r[:5]) for p, r in s[0].items()) for s in states])
    if {p: vars(n) for p, n in snap.nodes.items()} != frozen:
        raise Violation("later operations changed a snapshot")
    if case["mutate"]:
        for node in snap.nodes.values():
            node.metadata["planted"] = True
            node.policy.principals.add("planted")
            node.policy.writable = not node.policy.writable
            node.content = "planted" if node.content is not None else None
        obs.ev("snapshots changed in place")
        for vfs, state in ((a, states[0]), (b, states[1])):
            if digest_real(vfs) != state[0]:
                raise Violation("changing a snapshot object changed a live tree:\n" + _full_diff(digest_real(vfs), state[0]))
    else:
        b.restore(snap)
        if digest_real(b) != was_a:
            raise Violation("a second restore differs from the snapshot:\n" + _full_diff(digest_real(b), was_a))


# -- copies ----------------------------------------------------------------------------------------------------------------
def gen_copies(rng, index, tier):
    nodes = []
    dirs = ["/s"]
    for i in range(rng.randint(1, 6)):
        base = rng.choice(dirs)
        if rng.random() < 0.4:
            dirs.append(f"{base}/d{i}")
            kind = "d"
        else:
            kind = rng.choice(["f", "f", "f", "p"])
        pol = {"writable": rng.random() < 0.9, "append_only": rng.random() < 0.1, "classification": rng.choice(["public", "secret"]),
               "principals": rng.sample(["amy", "bob"], rng.choice([0, 0, 1, 2]))}
        nodes.append([f"{base}/{'d' if kind == 'd' else 'n'}{i}", kind, rng.choice(TEXTS), pol,
                      {k: rng.choice([1, "v", ["opaque"]]) for k in rng.sample(["k", "l"], rng.randint(0, 2))}])
    whole = rng.random() < 0.6
    source = "/s" if whole else rng.choice(nodes)[0]
    over = rng.random() < 0.25
    ops = []
    for _ in range(rng.randint(4, 12)):
        ops.append([rng.randrange(3), rng.randrange(100), rng.choice(["write", "append", "meta", "unmeta", "flag", "principal", "class", "rm", "create", "move"]),
                    rng.randrange(100)])
    return {"nodes": nodes, "source": source, "over": over, "twice": rng.random() < 0.4, "how": rng.choice(["api", "shell"]), "ops": ops,
            "kids": rng.random() < 0.5}


def run_copies(case, obs):
    vfs = VirtualFileSystem()
    vfs.mkdir("/s")
    vfs.mkdir("/t")
    source = case["source"]
    for path, kind, text, pol, meta in case["nodes"]:
        if kind == "d":
            vfs.mkdir(path)
        elif kind == "p":
            vfs.mount_file(path, lambda ctx, text=text: text)
        else:
            vfs.write_file(path, text)
        vfs.get_node(path).metadata.update(meta)
    for path, kind, text, pol, meta in case["nodes"]:
        vfs.set_policy(path, NodePolicy(**{**pol, "principals": set(pol["principals"])}))
    vfs.get_node("/s").metadata["top"] = 1
    tops = ["/t/one"]
    if case["over"] and vfs.is_file(source):
        vfs.write_file("/t/one", "to be replaced")
        vfs.get_node("/t/one").metadata["former"] = 1
    if case["twice"]:
        tops.append("/t/two")
    # The shell of everybody, so that nothing is hidden.
    shell = SandboxShell(vfs, view=VisibilityView(principals={"amy", "bob"}))
    previous = source
    for top in tops:
        if case["how"] == "api":
            vfs.copy(previous, top, recursive=True)
        else:
            result = shell.exec(f"cp -r {q(previous)} {q(top)}")
            if result.exit_code:
                raise Violation(f"cp -r failed: {result.stderr}")
        previous = top  # a copy of the copy

    def part(top):
        state = {}
        for path, row in digest_real(vfs).items():
            if path == top or path.startswith(top + "/"):
                state[path[len(top):]] = row
        return state

    want = {rel: row[:4] for rel, row in part(source).items()}
    for top in tops:
        obs.ev("copied trees compared")
        got = {rel: row[:4] for rel, row in part(top).items()}
        if got != want:
            raise Violation(f"the copy {top} differs from {source}:\n" + _full_diff(got, want))
    places = [source, *tops]
    for which, pick, what, arg in case["ops"]:
        place = places[which % len(places)]
        others = [p for p in places if p != place]
        before = {p: part(p) for p in others}
        rels = sorted(part(place))
        if not rels:
            continue
        path = place + rels[pick % len(rels)]
        node = vfs.get_node(path)
        if what == "meta":
            node.metadata[f"m{arg % 3}"] = arg
        elif what == "unmeta":
            node.metadata.clear()
        elif what == "flag":
            field = ["writable", "readable", "append_only"][arg % 3]
            setattr(vfs.get_policy(path), field, not getattr(node.policy, field))
        elif what == "principal":
            vfs.get_policy(path).principals.add(f"p{arg % 3}")
        elif what == "class":
            vfs.get_policy(path).classification = f"c{arg % 3}"
        elif what in ("write", "append", "rm", "create", "move"):
            op = {"write": ["write", path, f"new{arg}", False], "append": ["write", path, f"more{arg}", True], "rm": ["rm", path, True],
                  "create": ["write", f"{path}/made{arg}", "made", False], "move": ["mv", path, f"{path}-moved"]}[what]
            if what == "move" and path == place or what == "rm" and path == place:
                continue
            play(vfs, op)
        obs.ev("originals changed in place" if which % len(places) == 0 else "copies changed in place")
        for other, state in before.items():
            now = part(other)
            if now != state:
                raise Violation(f"{what} on {path} changed {other}, which is only a copy of the same content:\n" + _full_diff(now, state))
        obs.state(what, which, sorted((p, r[:5]) for p, r in digest_real(vfs).items()))


# -- what callers pass in and get back ----------------------------------------------------------------------------------------
def gen_values(rng, index, tier):
    return {"env": {f"E{i}": rng.choice(["a", "b"]) for i in range(rng.randint(0, 3))},
            "allowed": rng.choice([None, ["echo", "cat", "ls"], ["echo"], []]),
            "view": {"classifications": rng.choice([None, ["public"], ["public", "secret"]]), "principals": rng.choice([None, ["amy"], []]),
                     "path_prefixes": rng.choice([None, ["/a"], ["/a", "/b"]]), "metadata_filters": rng.choice([None, {"k": 1}, {}])},
            "store": {rng.choice(["x", "y", "d/z", "é"]): rng.choice(TEXTS) for _ in range(rng.randint(1, 3))},
            "kind": rng.choice(["mem", "dir"]), "ops": [[rng.choice(["env", "allowed", "view", "initial", "read", "list", "written", "result", "ls", "search",
                                                                      "globals", "shellenv", "ctx", "meta", "commands", "extra"]), rng.randrange(100)]
                                                        for _ in range(rng.randint(4, 10))]}


def run_values(case, obs):
    where = tempfile.mkdtemp(prefix="sandfs-c23-") if case["kind"] == "dir" else None
    try:
        values(case, obs, where)
    finally:
        if where:
            shutil.rmtree(where, ignore_errors=True)


def values(case, obs, where):
    initial = dict(case["store"])
    if where is None:
        store = MemoryStorageAdapter(initial=initial)
    else:
        for rel, text in initial.items():
            full = pathlib.Path(where, rel)
            full.parent.mkdir(parents=True, exist_ok=True)
            full.write_bytes(text.encode("utf-8"))
        store = FileSystemAdapter(pathlib.Path(where))
    vfs = VirtualFileSystem()
    for path, pol, meta in [("/a/pub", {}, {"k": 1}), ("/a/sec", {"classification": "secret"}, {}), ("/b/amy", {"principals": {"amy"}}, {"k": 1}),
                            ("/b/plain", {}, {}), ("/c/pub", {}, {"k": 1})]:
        vfs.write_file(path, f"text of {path}\n")
        vfs.set_policy(path, NodePolicy(**pol))
        vfs.get_node(path).metadata.update(meta)
    vfs.mount_storage("/st", store)
    env = dict(case["env"])
    allowed = set(case["allowed"]) if case["allowed"] is not None else None
    raw = {k: (set(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in case["view"].items()}
    view = VisibilityView(**raw)
    tools, template = {"tool": len}, {"extra": 1}
    executor = PythonExecutor(vfs, builtins=tools, globals_template=template)
    shell = SandboxShell(vfs, env=env, view=view, allowed_commands=allowed, python_executor=executor)
    bystander = SandboxShell(vfs)

    def probe():
        outs = []
        for command in ("ls /", "ls /a", "ls /b", "cat /a/sec", "cat /b/amy", "find /", "rg text /", "echo ${E0}${E1}${E2}${NEW}", "pwd", "wc /a/pub", "help"):
            for one in (shell, bystander):
                result = one.exec(command)
                outs.append((command, result.stdout, result.stderr, result.exit_code))
        run = executor.run("print(tool([1]), extra)")
        outs.append(("py", run.stdout))
        for name in ("tool", "extra"):
            if bystander.exec(f"python 'print({name})'").exit_code == 0:
                raise Violation(f"{name!r}, configured for one executor, is known to another")
        obs.ev("executors compared")
        listing = sorted((rel, e.content, e.version) for rel, e in store.list().items())
        hits = sorted((str(r.path), r.line_no, r.line_text) for r in vfs.search(SearchQuery("text")))
        state = {p: r for p, r in digest_real(vfs).items()}
        return outs, listing, hits, state, sorted(bystander.env.items())

    want = probe()
    for what, arg in case["ops"]:
        kind = "inputs changed afterwards"
        if what == "env":
            env["E0"] = env["NEW"] = "planted"
            env.pop("E1", None)
        elif what == "allowed":
            if allowed is None:
                continue
            allowed.update({"cat", "rg", "help"})
            allowed.discard("echo")
        elif what == "view":
            for value in raw.values():
                if isinstance(value, set):
                    value.update({"secret", "amy", "/c", "/"})
                elif isinstance(value, dict):
                    value["k"] = 2
        elif what == "initial":
            initial["planted"] = "planted"
            for rel in case["store"]:
                initial[rel] = "planted"
        elif what == "globals":
            tools["tool"] = lambda *_: "planted"
            template["extra"] = "planted"
        else:
            kind = "outputs changed afterwards"
            rel = sorted(case["store"])[arg % len(case["store"])]
            if what == "read":
                entry = store.read(rel)
                entry.content, entry.version = "planted", 77
            elif what == "list":
                entries = store.list()
                for entry in entries.values():
                    entry.content, entry.version = "planted", 77
                entries["planted"] = entries.pop(rel)
            elif what == "written":
                version = store.read(rel).version
                entry = store.write(rel, f"written {arg}", version=version)
                entry.content, entry.version = "planted", 77
                if (store.read(rel).content, store.read(rel).version) != (f"written {arg}", version + 1):
                    raise Violation(f"changing the entry handed out by a write changed the stored one to {store.read(rel)}")
                vfs.sync_storage("/st")
                want = probe()
                if (f"{rel}", f"written {arg}", version + 1) not in want[1]:
                    raise Violation("changing the entry handed out by a write changed the listed one")
            elif what == "result":
                result = bystander.exec("echo kept")
                result.stdout, result.exit_code = "planted", 9
            elif what == "ls":
                rows = vfs.ls("/a")
                rows.clear()
            elif what == "search":
                vfs.search(SearchQuery("text")).clear()
            elif what == "extra":
                run = executor.run("extra = 'planted'\ntool = 'planted'")
                run.globals["extra"] = "planted"
                run.globals.pop("fs", None)
            elif what == "shellenv":
                other = SandboxShell(vfs, env=env, view=view)
                other.exec("E0=planted")
                other.env["NEW"] = "planted"
                other.view = VisibilityView()
                other.allowed_commands = {"pwd"}
                other.max_output_bytes = 1
            elif what == "ctx":
                def nosy(args, ctx):
                    ctx.env["E0"] = ctx.env["NEW"] = "planted"
                    args.append("planted")
                    return "ok"
                one = SandboxShell(vfs, env=shell.env)
                one.register_command("nosy", nosy)
                if one.exec("nosy a").stdout != "ok" or one.exec("echo -n ${NEW}").stdout:
                    raise Violation("a command's changes to its environment outlive it")
            elif what == "meta":
                meta = {"k": 5}
                vfs.mount_file("/tmpf", lambda ctx: "x", metadata=meta)
                meta["k"] = 6
                if vfs.get_node("/tmpf").metadata != {"k": 5}:
                    raise Violation("metadata passed to a mount is shared with the caller")
                vfs.remove("/tmpf")
            elif what == "commands":
                one = SandboxShell(vfs)
                one.register_command("onlyhere", lambda args: "x", description="planted")
                one.commands.pop("ls")
                one.command_docs.clear()
        obs.ev(kind)
        got = probe()
        if got != want:
            for left, right, label in zip(got, want, ("command results", "stored entries", "search results", "tree", "variables")):
                if left != right:
                    if isinstance(left, dict):
                        raise Violation(f"changing '{what}' values afterwards changed the {label}:\n" + _full_diff(left, right))
                    bad = [(x, y) for x, y in zip(left, right) if x != y][:2]
                    raise Violation(f"changing '{what}' values afterwards changed the {label}: {_short(bad or (left, right))}")
        obs.state(what, repr(case["view"]), repr(case["allowed"]), repr(sorted(case["env"])))


# -- one provided node in several places ---------------------------------------------------------------------------------------
def gen_provided(rng, index, tier):
    def node(depth):
        pol = rng.choice([None, {}, {"classification": "secret"}, {"principals": ["amy"]}, {"principals": ["amy", "bob"], "readable": False}, {"append_only": True}])
        meta = {k: rng.choice([1, "v"]) for k in rng.sample(["k", "l"], rng.randint(0, 2))}
        if depth and rng.random() < 0.45:
            return ["d", {f"n{i}": node(depth - 1) for i in range(rng.randint(0, 3))}, rng.random() < 0.3, pol, meta]
        return ["f", rng.choice(TEXTS), rng.random() < 0.25, pol, meta]

    ops = [[rng.randrange(3), rng.randrange(100), rng.choice(["write", "append", "meta", "unmeta", "flag", "principal", "class", "rm", "create", "move", "policy", "touch"]),
            rng.randrange(100)] for _ in range(rng.randint(4, 12))]
    return {"tree": {f"t{i}": node(2) for i in range(rng.randint(1, 4))}, "ops": ops, "direct": rng.random() < 0.5,
            "constant": rng.random() < 0.6, "view": rng.random() < 0.2}


def provided(spec, direct):
    """A ProvidedNode, built by its constructor or by the helpers."""
    from sandfs import ProvidedNode

    kind, body, dynamic, pol, meta = spec
    policy = None if pol is None else NodePolicy(**{**pol, **({"principals": set(pol["principals"])} if "principals" in pol else {})})
    if kind == "f":
        extra = {"content_provider": lambda ctx, body=body: body} if dynamic else {"content": body}
        return ProvidedNode(kind="file", metadata=dict(meta), policy=policy, **extra) if direct else ProvidedNode.file(metadata=dict(meta), policy=policy, **extra)
    kids = {name: provided(child, direct) for name, child in body.items()}
    extra = {"directory_provider": lambda ctx, kids=kids: kids} if dynamic else {"children": kids}
    return ProvidedNode(kind="dir", metadata=dict(meta), policy=policy, **extra) if direct else ProvidedNode.directory(metadata=dict(meta), policy=policy, **extra)


def run_provided(case, obs):
    tree = {name: provided(spec, case["direct"]) for name, spec in case["tree"].items()}
    provider = (lambda ctx: tree) if case["constant"] else (lambda ctx: dict(tree))
    one, two = VirtualFileSystem(), VirtualFileSystem()
    places = [(one, "/a"), (one, "/x/b"), (two, "/a")]
    for vfs, top in places:
        vfs.mount_directory(top, provider)

    def part(place):
        vfs, top = place
        return {path[len(top):]: row for path, row in digest_real(vfs).items() if path == top or path.startswith(top + "/")}

    want = {rel: row[:4] for rel, row in part(places[0]).items()}
    for place in places[1:]:
        obs.ev("provided trees compared")
        got = {rel: row[:4] for rel, row in part(place).items()}
        if got != want:
            raise Violation("a provided tree differs between the places it is mounted at:\n" + _full_diff(got, want))
    for which, pick, what, arg in case["ops"]:
        vfs, top = places[which]
        others = [p for p in places if p != places[which]]
        before = [part(p) for p in others]
        rels = sorted(r for r in part(places[which]) if r)
        if not rels:
            continue
        path = top + rels[pick % len(rels)]
        node = vfs.get_node(path)
        if what == "meta":
            node.metadata[f"m{arg % 3}"] = arg
        elif what == "unmeta":
            node.metadata.clear()
        elif what == "flag":
            field = ["writable", "readable", "append_only"][arg % 3]
            setattr(vfs.get_policy(path), field, not getattr(node.policy, field))
        elif what == "principal":
            vfs.get_policy(path).principals.add(f"p{arg % 3}")
        elif what == "class":
            vfs.get_policy(path).classification = f"c{arg % 3}"
        elif what == "policy":
            vfs.set_policy(path, NodePolicy(classification=f"c{arg % 3}", writable=arg % 2 == 0))
        elif what == "touch":
            play(vfs, ["write", f"{path}x", "", False])
        else:
            play(vfs, {"write": ["write", path, f"new{arg}", False], "append": ["write", path, f"more{arg}", True], "rm": ["rm", path, True],
                       "create": ["write", f"{path}/made{arg}", "made", False], "move": ["mv", path, f"{path}-moved"]}[what])
        obs.ev("provided nodes changed")
        for place, state in zip(others, before):
            now = part(place)
            if now != state:
                raise Violation(f"{what} on {path} changed {place[1]} of {'the same' if place[0] is vfs else 'another'} sandbox, made from the same provided nodes:\n"
                                + _full_diff(now, state))
        obs.state(what, which, sorted((p, r[:5]) for p, r in part(places[which]).items()))
    # Who mounts the same provider later gets what the provider declares.
    fresh = VirtualFileSystem()
    fresh.mount_directory("/a", provider)
    got = {rel: row[:4] for rel, row in part((fresh, "/a")).items()}
    if got != want:
        raise Violation("a provider's nodes are different for a sandbox that mounts it later:\n" + _full_diff(got, want))


def families():
    return [Family("worlds", 1000, 20000, gen_worlds, run_worlds), Family("cross", 1200, 15000, gen_cross, run_cross),
            Family("copies", 2500, 40000, gen_copies, run_copies), Family("values", 1500, 12000, gen_values, run_values),
            Family("provided", 800, 8000, gen_provided, run_provided)]
