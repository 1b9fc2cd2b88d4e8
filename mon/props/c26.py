"""C26: a hook runs when its change is complete."""

import pathlib
from pathlib import PurePosixPath

from ..core import Family, Violation
from ..gen import Gen
from ..model import is_below
from ..sim import Sim, _short, digest_real, is_dir_node

from sandfs import MemoryStorageAdapter, SearchQuery, VirtualFileSystem
from sandfs.exceptions import InvalidOperation, SandboxError

RULE = ("Histories over trees with storage mounts, policies and full-text indexes run with hooks that look around when called: the announced path, its "
        "content, version, backing storage and search results are read inside the hook and compared with the event. In twin histories one sandbox has "
        "hooks that read, search, take snapshots, run commands, keep a journal file or raise errors and the other has none of them; both must end every "
        "operation in the same state, journals must hold the twin's event sequence, and errors must reach the caller. Hooks that rewrite, append to, move, "
        "remove or copy the announced file (or its siblings and parents) are compared with a twin doing the same after the operation. Counted: distinct (event, state "
        "around it) observations.")
ASSUMPTIONS = ["the announced state is found in the sandbox as long as no earlier hook changed the path again",
               "in which order the events of an operation and of what a hook does inside it arrive is open",
               "a recursive removal interrupted by a hook's error may stop part way"]
REQUIRE = {"write events inspected": 8000, "delete events inspected": 2500, "stored entries inspected": 1500, "stored removals inspected": 500,
           "searches inside hooks": 8000, "twin states compared": 8000, "journal entries compared": 3000, "errors raised by hooks": 500,
           "errors that reached the caller": 500, "moves interrupted": 15, "copies interrupted": 25, "writes interrupted": 200, "reactions": 8000,
           "interrupted with storage": 80, "operations with a hook changing the announced file": 2500, "removals with hooks acting in between": 80}

OPS = {"write": 8, "append": 5, "touch": 1, "mkdir": 2, "rm": 3, "rmr": 3, "mv": 6, "cp": 5, "cpr": 4, "cd": 1, "policy": 1}
JOURNAL = "/~journal/log"


def gen_ops(rng, tier):
    g = Gen(rng, fancy=0.15, miss=0.06, via=(4, 1, 3), expected=0, big=False, weights={"write": 6, "mkdir": 2},
            polprob={"none": 4, "ro": 1, "ao": 1, "cls": 1, "ur": 1})
    g.names = [n for n in g.names if not n.startswith("~")][: rng.randint(3, 6)]
    for _ in range(rng.choice([0, 1, 1, 2])):
        g.add(g.make("store"))
        g.add(g.make("mount"))
    if rng.random() < 0.5:
        g.add(["index"])
    g.run(len(g.ops) + rng.randint(3, 9))
    g.weights = dict(OPS)
    g.run(len(g.ops) + (rng.randint(6, 16) if tier == "quick" else rng.randint(8, 40)))
    return [op for op in g.ops if op is not None]


def gen_observe(rng, index, tier):
    return {"ops": gen_ops(rng, tier), "prefixes": rng.sample(["/", "/", "/a", "/b", "/a/b"], rng.randint(1, 2))}


def spot(sim, path):
    """(spy, model store, directory, relative path) of the mount holding a path."""
    parts = tuple(p for p in path.split("/") if p)
    found = sim.model.store_of(parts)
    if found is None:
        return None
    store, rel = found
    for spy, twin, where in sim.stores:
        if twin is store:
            return spy, where, rel
    return None


class Watcher:
    def __init__(self, sim, obs):
        self.sim, self.obs, self.problem = sim, obs, None

    def bad(self, text):
        if self.problem is None:
            self.problem = text

    def stored(self, path):
        place = spot(self.sim, path)
        if place is None:
            return None
        spy, where, rel = place
        if where is not None:
            full = pathlib.Path(where, rel)
            return (full.read_bytes().decode("utf-8"), None) if full.is_file() else ()
        entry = spy.inner.list().get(rel)
        return (entry.content, entry.version) if entry is not None else ()

    def written(self, path, content, version):
        vfs, obs = self.sim.vfs, self.obs
        obs.ev("write events inspected")
        try:
            node = vfs.get_node(path)
        except SandboxError as exc:
            return self.bad(f"{path} was announced as written but cannot be found ({exc}) while the hook runs")
        if is_dir_node(node):
            return self.bad(f"{path} was announced as written but is a directory")
        if node.read(vfs) != content:
            self.bad(f"{path} was announced with {content!r} but holds {node.read(vfs)!r} while the hook runs")
        if version is not None and (node.version != version or vfs.get_version(path) != version):
            self.bad(f"{path} was announced with version {version} but has {node.version} while the hook runs")
        if version is None:
            version = node.version
        stored = self.stored(path)
        if stored is not None:
            obs.ev("stored entries inspected")
            if not stored or stored[0] != content or stored[1] not in (None, version):
                self.bad(f"{path} was announced with {content!r} version {version} while storage holds {stored!r}")
        if str(node.path()) != path:
            self.bad(f"the node at {path} says it is at {node.path()} while the hook runs")
        if node.policy.readable:
            words = [w for line in content.splitlines()[:20] for w in line.split()][:1]
            for word in words or ["x"]:
                self.search(path, path, word, {(path, n, line) for n, line in enumerate(content.splitlines(), 1) if word in line})
        obs.state("w", path, content, version, bool(stored))

    def search(self, path, prefix, word, want):
        self.obs.ev("searches inside hooks")
        got = {(str(r.path), r.line_no, r.line_text) for r in self.sim.vfs.search(SearchQuery(word, path_prefix=PurePosixPath(prefix))) if str(r.path) == path}
        if got != want:
            self.bad(f"searching {word!r} in {path} while the hook runs gives {_short(got)}, expected {_short(want)}")

    def deleted(self, path):
        self.obs.ev("delete events inspected")
        vfs = self.sim.vfs
        if vfs.exists(path):
            self.bad(f"{path} was announced as removed but exists while the hook runs")
        parent = path.rsplit("/", 1)[0] or "/"
        if vfs.is_dir(parent) and path in {str(n.path()) for _, n in vfs.walk(parent)}:
            self.bad(f"{path} was announced as removed but is listed while the hook runs")
        stored = self.stored(path)
        if stored is not None:
            self.obs.ev("stored removals inspected")
            if stored:
                self.bad(f"{path} was announced as removed while storage holds {stored!r}")
        self.search(path, "/", "", set())
        self.obs.state("d", path, stored is None)

    def on_write(self, event):
        self.written(event.path, event.content, event.version)

    def on_path(self, event):
        if event.event == "delete":
            self.deleted(event.path)
        else:
            self.written(event.path, event.content, None)


def run_observe(case, obs):
    sim = Sim(obs)
    watcher = Watcher(sim, obs)
    try:
        for prefix in case["prefixes"]:
            sim.vfs.register_write_hook(prefix, watcher.on_write)
            sim.vfs.register_path_hook(prefix, watcher.on_path)
        for op in case["ops"]:
            sim.step(op)
            if watcher.problem:
                sim.fail(watcher.problem)
    finally:
        sim.close()


# -- twins -------------------------------------------------------------------------------------------------------------
KINDS = ["journal", "journal", "look", "search", "snapshot", "shell", "raise", "raise", "raise"]
ERRORS = {"value": ValueError, "os": OSError, "key": KeyError, "run": RuntimeError, "inv": InvalidOperation, "type": TypeError, "missing": FileNotFoundError}


def gen_react(rng, index, tier):
    kinds = [rng.choice(KINDS) for _ in range(rng.randint(1, 2))]
    hooks = []
    for kind in kinds:
        hooks.append([kind, rng.choice("wp"), rng.choice(["/", "/", "/", "/a"]), rng.choice([1, 2, 3, 5, 8, 12, 16, 20]), rng.choice(list(ERRORS))])
    if sum(1 for h in hooks if h[0] == "raise") > 1:
        hooks = [h for h in hooks if h[0] != "raise"][:1] + [h for h in hooks if h[0] == "raise"][:1]
    return {"ops": gen_ops(rng, tier), "hooks": hooks}


class Twin(Sim):
    """One side of a twin run: operations are applied, nothing is judged."""

    def apply(self, op):
        handler = getattr(self, "do_" + op[0], None)
        if handler is not None:
            handler(op)
            return True, None
        if op[0] == "mount":
            if op[2] >= len(self.stores) or any(s is self.stores[op[2]][1] for s in self.model.mounts.values()):
                return True, None
        ok, _, error = self.real_op(op)
        if op[0] == "mount" and ok:
            self.model.mounts[self.model.lex(op[1])] = self.stores[op[2]][1]
        return ok, error

    def view(self):
        state = {p: s[:5] for p, s in digest_real(self.vfs).items() if not p.startswith("/~journal")}
        return state, [self.store_state(i) for i in range(len(self.stores))]


def row(event):
    if hasattr(event, "append"):
        return f"W {event.path} {event.version} {event.append} {event.content!r}\n"
    return f"P {event.path} {event.event} {event.content!r}\n"


class Reaction:
    def __init__(self, twin, spec, obs):
        self.kind, self.family, self.prefix, self.nth, self.error = spec
        self.twin, self.obs, self.count, self.raised, self.busy = twin, obs, 0, None, False

    def __call__(self, event):
        if self.busy or event.path.startswith("/~journal"):
            return
        self.busy = True
        try:
            self.react(event)
        finally:
            self.busy = False

    def react(self, event):
        vfs, self.count = self.twin.vfs, self.count + 1
        self.obs.ev("reactions")
        if self.kind == "journal":
            vfs.append_file(JOURNAL, row(event))
        elif self.kind == "look":
            digest_real(vfs)
            vfs.exists(event.path)
            list(vfs.iter_files("/")) if vfs.get_node("/").policy.readable else None
        elif self.kind == "search":
            vfs.search(SearchQuery("a"))
            vfs.search(SearchQuery("(", regex=False, path_prefix=None))
        elif self.kind == "snapshot":
            vfs.snapshot()
        elif self.kind == "shell":
            self.twin.shell.exec("ls / | wc -l")
            self.twin.shell.exec("cat /nowhere")
        elif self.kind == "raise" and self.count == self.nth:
            self.obs.ev("errors raised by hooks")
            self.raised = ERRORS[self.error](f"hook-marker-{self.nth}")
            raise self.raised


def carries(error, raised):
    seen = 0
    while error is not None and seen < 10:
        if error is raised or str(raised.args[0]) in str(error):
            return True
        error = error.__cause__ or error.__context__ if isinstance(error, BaseException) else None
        seen += 1
    return False


def run_react(case, obs):
    plain, other = Twin(obs), Twin(obs)
    try:
        reactions, logs = [], []
        nested = []
        other.vfs.write_file(JOURNAL, "")
        for spec in case["hooks"]:
            reaction, log = Reaction(other, spec, obs), []
            if spec[1] == "w":
                plain.vfs.register_write_hook(spec[2], log.append)
                other.vfs.register_write_hook(spec[2], reaction)
            else:
                plain.vfs.register_path_hook(spec[2], log.append)
                other.vfs.register_path_hook(spec[2], reaction)
            reactions.append(reaction)
            logs.append(log)
        other.vfs.register_write_hook("/~journal", nested.append)
        journals = [i for i, r in enumerate(reactions) if r.kind == "journal"]
        for op in case["ops"]:
            before, _ = other.view()
            kept = (plain.vfs.pwd(), other.vfs.pwd())
            ok, error = plain.apply(op)
            got_ok, got_error = other.apply(op)
            raised = next((r.raised for r in reactions if r.raised is not None), None)
            name = op[0]
            if raised is None and ok != got_ok:
                raise Violation(f"{_short(op)} {'succeeds' if ok else 'is refused'} without hooks but with hooks {case['hooks']} gave {got_error!r}")
            have, want = other.view(), plain.view()
            if raised is not None:
                if got_ok:
                    raise Violation(f"{_short(op)}: the error {raised!r} raised by a hook did not reach the caller")
                if not carries(got_error, raised):
                    raise Violation(f"{_short(op)}: the hook raised {raised!r} but the caller got {got_error!r}")
                obs.ev("errors that reached the caller")
                obs.ev({"write": "writes", "mv": "moves", "cp": "copies"}.get(name, name) + " interrupted")
                if name == "rm" and op[2]:
                    for path, state in have[0].items():
                        if before.get(path) != state:
                            raise Violation(f"{_short(op)} interrupted by a hook changed {path}")
                    for path in want[0]:
                        if path not in have[0]:
                            raise Violation(f"{_short(op)} interrupted by a hook also removed {path}")
                    mirror(other)
                    return
                if other.stores:
                    obs.ev("interrupted with storage")
            obs.ev("twin states compared")
            if have[0] != want[0]:
                lines = [f"{p}: {_short(have[0].get(p))} without hooks {_short(want[0].get(p))}" for p in sorted(set(have[0]) | set(want[0]))
                         if have[0].get(p) != want[0].get(p)][:4]
                raise Violation(f"{_short(op)} ends differently with hooks {case['hooks']} (raised: {raised!r}):\n" + "\n".join(lines))
            if have[1] != want[1]:
                raise Violation(f"{_short(op)} leaves storage {_short(have[1])} with hooks {case['hooks']} (raised: {raised!r}), {_short(want[1])} without")
            for word in ("a", "line", "1"):
                a = {(str(r.path), r.line_no, r.line_text) for r in other.vfs.search(SearchQuery(word)) if not str(r.path).startswith("/~journal")}
                b = {(str(r.path), r.line_no, r.line_text) for r in plain.vfs.search(SearchQuery(word))}
                if a != b:
                    raise Violation(f"after {_short(op)} (raised: {raised!r}) searching {word!r} gives {_short(a ^ b)} differently with hooks")
            if plain.vfs.pwd() != other.vfs.pwd():
                raise Violation(f"{_short(op)}: current directory {other.vfs.pwd()} with hooks, {plain.vfs.pwd()} without (before: {kept})")
            if len(journals) == 1 and not any(r.kind == "raise" for r in reactions):
                expected = "".join(row(e) for e in logs[journals[0]])
                obs.ev("journal entries compared", len(logs[journals[0]]))
                text = other.vfs.get_node(JOURNAL).read(other.vfs)
                if sorted(text.splitlines()) != sorted(expected.splitlines()):
                    raise Violation(f"after {_short(op)} the journal kept by a hook holds {_short(text)}, expected {_short(expected)}")
                if [e.version for e in nested] != list(range(2, 2 + len(nested))) or len(nested) != len(logs[journals[0]]):
                    raise Violation(f"a hook's own writes were announced as {_short([(e.path, e.version) for e in nested])}")
            for reaction in reactions:
                reaction.raised = None
            obs.state(repr(op), repr(sorted(have[0].items())), repr(case["hooks"]))
    finally:
        plain.close()
        other.close()


# -- hooks that change what they are told about ------------------------------------------------------------------------
ACTIONS = ["rewrite", "append", "move", "remove", "copy", "sibling", "rename parent", "other"]


def gen_meddle(rng, index, tier):
    top = rng.choice(["", "", "/m"])
    names = ["a", "b", "d/a", "d/b", "d/log", "e/x/a", "e/x/b", "log"]
    spots = [f"{rng.choice([top, top, ''])}/{n}" for n in names]
    dirs = sorted({p.rsplit("/", 1)[0] or "/" for p in spots} - {"/", "/m"})
    pick = lambda: rng.choice(spots)  # noqa: E731
    ops = [["write", p, f"start {n}\n"] for n, p in enumerate(spots) if rng.random() < 0.6]
    meddle_from = len(ops) if rng.random() < 0.5 else 0
    for n in range(rng.randint(3, 9) if tier == "quick" else rng.randint(5, 25)):
        fresh = f"{rng.choice([top, ''])}/new{n}"
        ops.append(rng.choice([["write", pick(), f"text {n}\n"], ["write", pick(), f"text {n}\n"], ["append", pick(), f"more {n}\n"], ["cp", pick(), rng.choice([pick(), fresh])],
                               ["cpr", rng.choice(dirs), fresh], ["cpr", rng.choice(dirs), fresh], ["mv", pick(), fresh], ["mv", rng.choice(dirs), fresh],
                               ["rm", pick()], ["rmr", rng.choice(dirs)], ["rmr", rng.choice(dirs)]]))
    return {"top": top, "ops": ops, "from": meddle_from, "index": rng.random() < 0.5, "kind": rng.choice("wp"), "on": rng.choice(["write", "write", "delete"]),
            "action": rng.choice(ACTIONS), "prefix": rng.choice(["/", "/", "/d", "/m", "/m/d", "/new3"]), "every": rng.choice([1, 1, 2, 3]), "first": rng.random() < 0.5}


class Meddler:
    def __init__(self, case, vfs):
        self.case, self.vfs, self.count, self.busy, self.on, self.done = case, vfs, 0, False, False, 0

    def wants(self, event):
        removal = getattr(event, "event", "") == "delete"
        return self.on and removal == (self.case["on"] == "delete")

    def __call__(self, event):
        if self.busy or not self.wants(event):
            return
        self.busy = True
        try:
            self.act(event.path)
        finally:
            self.busy = False

    def act(self, path):
        self.count += 1
        if self.count % self.case["every"]:
            return
        self.done += 1
        vfs, action, number = self.vfs, self.case["action"], self.count
        parent = path.rsplit("/", 1)[0]
        try:
            if action == "rewrite":
                vfs.write_file(path, f"clean {number}\n")
            elif action == "append":
                vfs.append_file(path, f"seen {number}\n")
            elif action == "move":
                vfs.move(path, f"/done{number}")
            elif action == "remove":
                vfs.remove(path)
            elif action == "copy":
                vfs.copy(path, f"/kept{number}")
            elif action == "sibling":
                vfs.append_file(parent + "/log", f"entry {number}\n")
            elif action == "rename parent":
                vfs.move(parent or "/", f"/moved{number}")
            else:
                vfs.write_file(f"/other{number % 3}", f"{number}\n")
        except SandboxError:
            pass


class Side:
    """A sandbox whose every event is recorded; with=True lets the meddler act inside the hooks."""

    def __init__(self, case, inside):
        self.vfs, self.rows, self.seen, self.case = VirtualFileSystem(), [], [], case
        self.meddler = Meddler(case, self.vfs)
        self.store = None
        if case["top"]:
            self.store = MemoryStorageAdapter({"d/a": "kept one\n", "d/sub/b": "kept two\n"})
            self.vfs.mount_storage(case["top"], self.store)
        if case["index"]:
            self.vfs.enable_full_text_index()
        told = self.meddler if inside else lambda e: self.seen.append(e) if self.meddler.wants(e) else None
        add = self.vfs.register_write_hook if case["kind"] == "w" else self.vfs.register_path_hook
        if case["first"]:
            add(case["prefix"], told)
        self.vfs.register_write_hook("/", lambda e: self.rows.append(("W", e.path, e.version, e.append, e.content)))
        self.vfs.register_path_hook("/", lambda e: self.rows.append(("P", e.path, e.event, e.content)))
        if not case["first"]:
            add(case["prefix"], told)

    def apply(self, op):
        vfs = self.vfs
        try:
            if op[0] == "write":
                vfs.write_file(op[1], op[2])
            elif op[0] == "append":
                vfs.append_file(op[1], op[2])
            elif op[0] in ("cp", "cpr"):
                vfs.copy(op[1], op[2], recursive=op[0] == "cpr")
            elif op[0] == "mv":
                vfs.move(op[1], op[2])
            else:
                vfs.remove(op[1], recursive=op[0] == "rmr")
        except SandboxError:
            return False
        return True

    def files(self):
        return {p: s[1] for p, s in digest_real(self.vfs).items() if s[0] == "f"}

    def stored(self):
        return {rel: (e.content, e.version) for rel, e in self.store.list().items()} if self.store is not None else None

    def view(self):
        found = sorted((str(r.path), r.line_no, r.line_text) for r in self.vfs.search(SearchQuery("")))
        return {p: s[:5] for p, s in digest_real(self.vfs).items()}, self.stored(), found, sorted(map(repr, self.rows))


def run_meddle(case, obs):
    real, flat = Side(case, True), Side(case, False)
    for number, op in enumerate(case["ops"]):
        real.meddler.on = flat.meddler.on = number >= case["from"]
        before, mark, acted = real.files(), len(real.rows), real.meddler.done
        ok = real.apply(op)
        if op[0] == "rmr" and real.meddler.done != acted:
            # The hook acted in the middle of the removal: what is left, what was announced and what is stored still tell one story.
            told = dict(before)
            for kind, path, *rest in real.rows[mark:]:
                if kind == "P":
                    told.pop(path, None) if rest[0] == "delete" else told.update({path: rest[1]})
            files = real.files()
            if not case["first"] and told != files:
                raise Violation(f"{op} with a hook that acts on {case['on']} events ({case['action']}): the events tell of {_short(told)}, the tree holds {_short(files)}")
            if ok and any(p == op[1] or p.startswith(op[1] + "/") for p in files):
                raise Violation(f"{op} succeeded but left {sorted(p for p in files if p.startswith(op[1]))}")
            if real.store is not None:
                want = {p[3:]: t for p, t in files.items() if p.startswith("/m/")}
                have = {rel: text for rel, (text, _) in real.stored().items()}
                if want != have:
                    raise Violation(f"{op} with a hook that acts on delete events ({case['action']}): storage holds {_short(have)}, the tree {_short(want)}")
            obs.ev("removals with hooks acting in between")
            obs.state("rmr", repr(case["ops"][: number + 1]), case["action"])
            return
        flat.seen.clear()
        want_ok = flat.apply(op)
        for event in list(flat.seen):
            flat.meddler.act(event.path)
        if ok != want_ok:
            raise Violation(f"{op} gave {ok} with a hook that acts on {case['on']} events ({case['action']}), {want_ok} without")
        obs.ev("operations with a hook changing the announced file" if real.meddler.done != acted else "operations without reaction")
        for label, a, b in zip(("the tree is", "storage is", "searching gives", "the events so far are"), real.view(), flat.view()):
            if a != b:
                if isinstance(a, dict):
                    a, b = {k: v for k, v in a.items() if b.get(k) != v}, {k: v for k, v in b.items() if a.get(k) != v}
                else:
                    a, b = [x for x in a if x not in b], [x for x in b if x not in a]
                raise Violation(f"after {op} with a {case['kind']} hook that does {case['action']!r} inside each {case['on']} event {label} {_short(a)}; doing the same after the "
                                f"operation gives {_short(b)}")
        obs.state("meddle", repr(case["ops"][: number + 1]), case["action"], case["on"], case["kind"])


def mirror(sim):
    """Storage still agrees with the tree below each mount."""
    digest = digest_real(sim.vfs)
    for prefix, store in sim.model.mounts.items():
        index = next(i for i, (_, s, _) in enumerate(sim.stores) if s is store)
        state = sim.store_state(index)
        for path, node in digest.items():
            parts = tuple(p for p in path.split("/") if p)
            if node[0] != "f" or not is_below(parts, prefix) or sim.model.store_of(parts)[0] is not store:
                continue
            rel = "/".join(parts[len(prefix):])
            kept = state.get(rel)
            if kept is not None and (kept if isinstance(kept, str) else kept[0]) != node[1]:
                raise Violation(f"{path} holds {node[1]!r} while storage holds {kept!r}")
        for rel in state:
            parts = prefix + tuple(rel.split("/"))
            if "/" + "/".join(parts) not in digest and sim.model.store_of(parts)[0] is store:
                raise Violation(f"storage holds {rel}, which the tree at {'/'.join(prefix)} does not")


def families():
    return [Family("observe", 3000, 22000, gen_observe, run_observe), Family("react", 3600, 26000, gen_react, run_react),
            Family("meddle", 3000, 30000, gen_meddle, run_meddle)]
