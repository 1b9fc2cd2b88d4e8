"""C22: dynamic nodes are consulted on demand and degrade safely."""

import copy

from ..core import Family, Violation
from ..gen import NAMES, TEXTS, simple_text
from ..model import MNode, Pol, Prov, RefFS, Refused, RefusedPartly, Undefined, is_below, pstr
from ..sim import _short, diff, digest_real, policy_key, q, real_policy

from sandfs import SandboxShell, VirtualFileSystem  # noqa: E402
from sandfs.exceptions import SandboxError  # noqa: E402
from sandfs.providers import ProvidedNode  # noqa: E402

RULE = ("A case mounts content and directory providers (nested, with policies, metadata, failing on demand, yielding invalid names, changing their "
        "text at every call) into a tree and drives reads, listings, writes, appends, moves, copies, removals, metadata changes and snapshots at and "
        "around them. Every provider call is logged and judged against the operation in progress (how often, path, metadata, sandbox), and the tree "
        "is compared with a reference tree in which the provided entries are ordinary nodes. Providers that themselves write, remove, move, list or read in the sandbox are driven through every command "
        "and call that walks the tree, none of which may fail or miss a node; observed: distinct states compared.")
ASSUMPTIONS = ["a provider does not ask for its own node", "whether a walk in progress meets the nodes its providers create or remove is open, as is what an index holds of them", "operations naming a directory whose provider is failing, or one above it, may go either way"]
REQUIRE = {"content provider calls": 3000, "directory provider calls": 800, "failing content reads": 300, "refused below a failing directory": 150,
           "retried after a failure": 60, "existing entry won": 40, "appends to dynamic content": 60, "dynamic copies": 60, "invalid names refused": 20,
           "nested providers": 100, "mutated after use": 60, "provided policies enforced": 50, "final trees compared": 600,
           "operations over active providers": 1500, "providers that used the sandbox": 3000}
QUICK_TIMES = 3

GOOD = ["a", "b", "c", "d.txt", "x y", "é", ".h", "..x", "...", "sub", "long" * 20, "semi;x", "back\\s", "@at", "0"]
BAD = ["", ".", "..", "a/b", "/abs", "../up", "x/", "/"]
KEYS = ["k", "owner", "n", "path"]


class Text(Prov):
    """Content provider whose text also tells how often it was asked."""

    def __init__(self, label, *, path_dependent, counting, fail=False):
        super().__init__(label, path_dependent=path_dependent, fail=fail)
        self.counting, self.served, self.live, self.seen_meta = counting, 0, False, []

    def render(self, path, metadata):
        body = super().render(path, metadata)
        return f"{body}#{self.served}\n" if self.counting else body

    def __call__(self, ctx):
        self.calls.append((str(ctx.path), dict(ctx.metadata), ctx.vfs))
        if self.fail:
            raise self.fail_with("content provider failure injected")
        self.served += 1
        self.last = self.render(str(ctx.path), dict(ctx.metadata))
        return self.last

    fail_with = RuntimeError


class Listing:
    """Directory provider built from a specification."""

    def __init__(self, spec, maker):
        self.spec, self.maker = spec, maker
        self.fail, self.bad = spec["fail"], spec["bad"]
        self.calls, self.succeeded, self.failed, self.handed = [], False, 0, []
        self.node = None  # model directory it is mounted at

    @property
    def blocked(self):
        return not self.succeeded and (self.fail or self.bad is not None)

    def __call__(self, ctx):
        self.calls.append((str(ctx.path), dict(ctx.metadata), ctx.vfs))
        if self.fail:
            self.failed += 1
            raise self.fail_with("directory provider failure injected")
        entries = {name: self.maker.provided(item) for name, item in self.spec["entries"]}
        if self.bad is not None:
            self.failed += 1
            where, name = self.bad
            holder = entries
            if where == "deep":
                holder = {}
                entries["deep-holder"] = ProvidedNode.directory(children={"in": ProvidedNode.directory(children=holder)})
            holder[name] = ProvidedNode.file(content="planted")
            if where == "deep":
                entries["deep-holder"].children["in"].children[name] = holder[name]
            return entries
        self.succeeded = True
        self.handed.append(entries)
        return entries

    fail_with = RuntimeError


# -- generation -------------------------------------------------------------------------------------------------
def gen_policy(rng):
    return rng.choice([None, None, None, {"writable": False}, {"append_only": True}, {"readable": False}, {"classification": "secret"},
                       {"writable": False, "classification": "c"}])


def gen_meta(rng):
    return {rng.choice(KEYS): rng.choice([1, "v", None, "é"]) for _ in range(rng.randint(0, 2))}


def gen_text(rng):
    return {"text": rng.choice(TEXTS + ["body"] * 6), "pd": rng.random() < 0.6, "count": rng.random() < 0.5, "fail": rng.random() < 0.1}


def gen_listing(rng, depth=0):
    names = rng.sample(GOOD, rng.randint(0, 4))
    return {"entries": [[name, gen_entry(rng, depth + 1)] for name in names], "fail": rng.random() < 0.2,
            "bad": [rng.choice(["top", "deep"]), rng.choice(BAD)] if rng.random() < 0.12 else None}


def gen_entry(rng, depth):
    kind = rng.choices(["text", "none", "prov", "dir"], [4, 1, 3, 0 if depth > 3 else 4])[0]
    entry = {"kind": kind, "meta": gen_meta(rng), "pol": gen_policy(rng)}
    if kind == "text":
        entry["text"] = rng.choice(TEXTS)
    elif kind == "prov":
        entry["prov"] = gen_text(rng)
    elif kind == "dir":
        shape = rng.choice(["children", "listing", "both", "empty"])
        if shape in ("children", "both"):
            entry["children"] = [[name, gen_entry(rng, depth + 1)] for name in rng.sample(GOOD, rng.randint(0, 3))]
        if shape in ("listing", "both"):
            entry["listing"] = gen_listing(rng, depth + 1)
    return entry


def paths_of(listing, base):
    found = []

    def walk(entries, where):
        for name, entry in entries:
            path = where + "/" + name
            found.append((path, "d" if entry["kind"] == "dir" else "f"))
            walk(entry.get("children", []), path)
            if "listing" in entry:
                walk(entry["listing"]["entries"], path)

    walk(listing["entries"], base)
    return found


def gen_case(rng, index, tier):
    ops, known = [], [("/", "d")]
    for _ in range(rng.randint(0, 3)):
        ops.append(["mkdir", rng.choice(["/m", "/m/a", "/w", "/w/sub", "/m/sub"])])
        ops.append(["write", rng.choice(["/m/b", "/w/f", "/m/c", "/m/a/k", "/w/sub/b"]), "static"])
        known += [(ops[-2][1], "d"), (ops[-1][1], "f")]

    def mount():
        if rng.random() < 0.6:
            listing = gen_listing(rng)
            spot = rng.choice(["/m", "/m/a", "/w", "/w/sub", "/deep/er", rng.choice([p for p, k in known if k == "d" and p != "/"] or ["/m"])])
            known.append((spot, "d"))
            known.extend(paths_of(listing, spot))
            return ["mountd", spot, listing, gen_meta(rng)]
        spot = rng.choice(["/f", "/w/f", "/m/b", "/w/new/f", rng.choice([p for p, k in known if k == "f"] or ["/f"])])
        known.append((spot, "f"))
        return ["mountf", spot, gen_text(rng), gen_meta(rng)]

    def some(kind=None, miss=0.12):
        if rng.random() < miss:
            return rng.choice(known)[0].rstrip("/") + "/" + rng.choice(["new", "a", "b", "sub"])
        pool = [p for p, k in known if kind is None or k == kind]
        return rng.choice(pool or ["/"])

    for _ in range(rng.randint(1, 3)):
        ops.append(mount())
    for _ in range(rng.randint(10, 24) if tier == "quick" else rng.randint(15, 60)):
        what = rng.choices(["mount", "read", "cat", "ls", "sls", "write", "append", "touch", "mkdir", "rm", "mv", "cp", "meta", "fail", "mutate", "policy",
                            "snap", "restore", "cd", "walk", "tree", "stree", "find"],
                           [3, 14, 6, 7, 3, 4, 5, 1, 2, 3, 5, 5, 3, 10, 3, 2, 1, 1, 1, 2, 2, 1, 1])[0]
        if what == "mount":
            ops.append(mount())
        elif what in ("read", "cat"):
            ops.append([what, some("f")])
        elif what in ("ls", "sls"):
            ops.append([what, some("d")])
        elif what in ("tree", "stree", "find"):
            ops.append([what, "/" if rng.random() < 0.4 else some("d")])
        elif what in ("write", "append"):
            ops.append([what, some("f", 0.25), simple_text(rng)])
            known.append((ops[-1][1], "f"))
        elif what == "touch":
            ops.append(["touch", some("f", 0.3)])
        elif what == "mkdir":
            ops.append(["mkdir", some("d", 0.9)])
            known.append((ops[-1][1], "d"))
        elif what == "rm":
            ops.append(["rm", some(), rng.random() < 0.6])
        elif what in ("mv", "cp"):
            src = some()
            dst = some("d", 0.5)
            ops.append([what, src, dst])
            tail = src.rsplit("/", 1)[1]
            for path, kind in list(known):
                if path == src or path.startswith(src + "/"):
                    known.append((dst + path[len(src):], kind))
                    known.append((dst.rstrip("/") + "/" + tail + path[len(src):], kind))
            del known[:-120]
            known.append(("/", "d"))
        elif what == "meta":
            ops.append(["meta", some(), gen_meta(rng)])
        elif what == "policy":
            ops.append(["policy", some(), gen_policy(rng)])
        elif what == "fail":
            ops.append(["fail", rng.randrange(1000), rng.random() < 0.35, rng.randrange(4)])
        elif what == "mutate":
            ops.append(["mutate", rng.randrange(1000)])
        elif what in ("snap", "walk"):
            ops.append([what])
        elif what == "restore":
            ops.append(["restore", rng.randrange(10)])
        elif what == "cd":
            ops.append(["cd", some("d", 0.05)])
    return {"ops": ops}


# -- execution ----------------------------------------------------------------------------------------------------
ERRORS = [RuntimeError, OSError, KeyError, ValueError]


class Runner:
    def __init__(self, obs):
        self.obs = obs
        self.vfs = VirtualFileSystem()
        self.shell = SandboxShell(self.vfs)
        self.model = RefFS()
        self.texts, self.listings = [], []
        self.snaps = []
        self.history = []

    def fail(self, msg):
        raise Violation(msg + "\nafter: " + "; ".join(self.history[-10:]))

    # providers ----------------------------------------------------------------------------------------------------
    def text_provider(self, spec):
        prov = Text(spec["text"], path_dependent=spec["pd"], counting=spec["count"], fail=spec["fail"])
        self.texts.append(prov)
        return prov

    def provided(self, item):
        """The real node for a specification; content providers are created once, when the model merges the entry."""
        common = {"metadata": dict(item["meta"]), "policy": real_policy(Pol(**item["pol"])) if item["pol"] else None}
        if item["kind"] == "dir":
            children = {name: self.provided(child) for name, child in item["children"]} if "children" in item else None
            return ProvidedNode.directory(children=children, directory_provider=item.get("_listing"), **common)
        if item["kind"] == "prov":
            return ProvidedNode.file(content_provider=item["_prov"], **common)
        return ProvidedNode.file(content=item.get("text"), **common)

    def prepare(self, listing_spec):
        """Create the provider objects a specification needs (so that both sides share them)."""
        for _, item in listing_spec["entries"]:
            self.prepare_item(item)
        listing = Listing(listing_spec, self)
        self.listings.append(listing)
        return listing

    def prepare_item(self, item):
        if item["kind"] == "prov":
            item["_prov"] = self.text_provider(item["prov"])
        for _, child in item.get("children", []):
            self.prepare_item(child)
        if "listing" in item:
            item["_listing"] = self.prepare(item["listing"])
            self.obs.ev("nested providers")

    def merge(self, node, listing):
        listing.node = node
        node.listing = listing
        for name, item in listing.spec["entries"]:
            if name in node.children:
                self.obs.ev("existing entry won")
                self.orphan(item)
                continue
            node.children[name] = self.model_item(name, item, node)

    def orphan(self, item):
        """Providers inside an entry that never appears must never be called; nothing waits for them either."""
        for listing in ([item["_listing"]] if "_listing" in item else []):
            listing.node = None
            for _, sub in listing.spec["entries"]:
                self.orphan(sub)
        for _, child in item.get("children", []):
            self.orphan(child)

    def model_item(self, name, item, parent):
        node = MNode("d" if item["kind"] == "dir" else "f", name, parent)
        node.meta = dict(item["meta"])
        node.pol = Pol(**item["pol"]) if item["pol"] else Pol()
        node.plain = False
        if item["kind"] == "prov":
            node.prov = item["_prov"]
        elif item["kind"] == "dir":
            for child_name, child in item.get("children", []):
                node.children[child_name] = self.model_item(child_name, child, node)
            if "_listing" in item:
                self.merge(node, item["_listing"])
        else:
            node.content = item.get("text") or ""
        return node

    # judging --------------------------------------------------------------------------------------------------------
    def live(self, listing):
        node = listing.node
        while node is not None and node.parent is not None:
            node = node.parent
        return node is self.model.root and listing.node is not None and getattr(listing.node, "listing", None) is listing

    def blocked_parts(self):
        return [x.node.parts() for x in self.listings if x.blocked and self.live(x)]

    def rows(self):
        """State without consulting any provider."""
        state = {}

        def walk(node, path):
            is_dir = hasattr(node, "children")
            state[path or "/"] = (is_dir, None if is_dir else getattr(node, "_content", None), policy_key(node.policy),
                                  tuple(sorted(node.metadata.items(), key=str)), node.version, node.created_at, node.modified_at, id(node))
            for name, child in list(getattr(node, "children", {}).items()):
                walk(child, path + "/" + name)

        walk(self.vfs.get_node("/"), "")
        return state

    def call_real(self, op):
        vfs, name = self.vfs, op[0]
        try:
            if name == "read":
                return True, vfs.read_file(op[1]), None
            if name in ("cat", "sls", "stree", "find"):
                result = self.shell.exec({"cat": "cat ", "sls": "ls ", "stree": "tree ", "find": "find "}[name] + q(op[1]))
                if result.exit_code:
                    if not result.stderr:
                        self.fail(f"{name} {op[1]} failed without a message")
                    return False, None, SandboxError(result.stderr)
                return True, sorted(result.stdout.split("\n")) if name == "find" else result.stdout, None
            if name == "tree":
                return True, vfs.tree(op[1]), None
            if name == "ls":
                return True, [(e.name, e.is_dir) for e in vfs.ls(op[1])], None
            if name == "walk":
                return True, sorted(str(p) for p, _ in vfs.walk("/")), None
            if name == "write":
                return True, vfs.write_file(op[1], op[2]), None
            if name == "append":
                return True, vfs.append_file(op[1], op[2]), None
            if name == "touch":
                return True, vfs.touch(op[1]), None
            if name == "mkdir":
                return True, vfs.mkdir(op[1], parents=True, exist_ok=True), None
            if name == "rm":
                return True, vfs.remove(op[1], recursive=op[2]), None
            if name == "mv":
                return True, vfs.move(op[1], op[2]), None
            if name == "cp":
                return True, vfs.copy(op[1], op[2], recursive=True), None
            if name == "cd":
                return True, vfs.cd(op[1]), None
            if name == "meta":
                vfs.get_node(op[1]).metadata.update(op[2])
                return True, None, None
            if name == "policy":
                return True, vfs.set_policy(op[1], real_policy(Pol(**(op[2] or {})))), None
            if name == "snap":
                return True, vfs.snapshot(), None
        except SandboxError as exc:
            return False, None, exc
        except Exception as exc:  # noqa: BLE001
            return False, None, exc
        raise AssertionError(name)

    def operands(self, op):
        if op[0] in ("mv", "cp"):
            return [self.model.lex(op[1]), self.model.lex(op[2])]
        if op[0] in ("snap", "walk"):
            return [()]
        return [self.model.lex(op[1])]

    def step(self, op):
        name = op[0]
        self.history.append(_short(op)[:160])
        if name in ("mountd", "mountf"):
            return self.mount(op)
        if name == "fail":
            return self.toggle(op)
        if name == "mutate":
            return self.mutate(op)
        if name == "restore":
            return self.restore(op)
        model = self.model
        operands = self.operands(op)
        blocked = self.blocked_parts()
        below = any(len(o) > len(b) and is_below(o, b) for o in operands for b in blocked)
        around = any(is_below(b, operands[0]) or b == operands[-1] for b in blocked)
        rows = self.rows()
        before_paths = {id(x): (x.node.path(), dict(x.node.meta)) for x in self.listings if self.live(x)}
        marks = {id(p): len(p.calls) for p in self.texts}
        lmarks = {id(p): (len(p.calls), p.succeeded, p.failed) for p in self.listings}
        prov_before = {id(n.prov): (n.path(), dict(n.meta)) for n in model.root.walk() if n.prov is not None}
        target = model.find(operands[0])
        dynamic = target.prov if target is not None and target.kind == "f" else None
        ok, value, error = self.call_real(op)
        self.ok = ok
        if error is not None and not isinstance(error, SandboxError):
            self.fail(f"{name} raised {type(error).__name__}: {error}, which is not a sandbox error")
        self.judge_calls(op, marks, lmarks, before_paths, prov_before, operands)
        after = self.rows()
        if not ok and name != "rm":
            self.unaltered(op, rows, after)
        if below:
            if ok:
                self.fail(f"{name} below a directory whose provider fails succeeded")
            self.obs.ev("refused below a failing directory")
            if name == "rm":
                self.unaltered(op, rows, after)
            return
        if around and name in ("cp", "walk", "snap", "ls", "sls", "tree", "stree", "find") and not (name in ("ls", "sls") and operands[0] not in blocked):
            if ok and not (name == "cp" and target is None) and not (name == "find" and target is not None and target.kind == "f"):
                self.fail(f"{name} over a directory whose provider fails succeeded")
            return
        if around and not ok:
            if name == "rm":
                self.partial(rows, after)
            return
        # expected outcome
        expected, refusal = None, None
        try:
            expected = self.model_op(op, dynamic, marks)
        except Refused as exc:
            refusal = exc
        if refusal is not None:
            if ok:
                self.fail(f"{name} succeeded; it has to be refused ({refusal})")
            self.obs.ev("refused")
            if isinstance(refusal, RefusedPartly):
                self.partial(rows, after)
            elif name == "rm":
                self.unaltered(op, rows, after)
            if "read-only" in str(refusal) or "append-only" in str(refusal) or "unreadable" in str(refusal):
                self.obs.ev("provided policies enforced", int(target is not None and not target.plain))
            return
        if not ok:
            self.fail(f"{name} was refused: {error}")
        if name in ("read", "cat", "ls", "sls", "walk", "tree", "stree", "find") and value != expected:
            self.fail(f"{name} returned {_short(value)}, expected {_short(expected)}")
        if name == "snap":
            self.snaps.append((value, expected))
        if name in ("append", "write") and after[pstr(operands[0])][1] is not None:
            now = self.vfs.read_file(op[1]) if self.vfs.get_node(op[1]).policy.readable else None
            want = model.find(operands[0]).content
            if now is not None and now != want:
                self.fail(f"after the {name} the file reads {_short(now)}, expected {_short(want)}")

    def used_text(self, prov, marks, required):
        """Text of the last call made during this operation."""
        if len(prov.calls) <= marks[id(prov)]:
            if required:
                self.fail("the content provider was not consulted by this read")
            return None
        return prov.last

    def model_op(self, op, dynamic, marks):
        model, name = self.model, op[0]
        if name in ("read", "cat"):
            node = model.need(model.lex(op[1]))
            if node.kind != "f":
                raise Refused("is a directory")
            if not node.pol.readable:
                raise Refused("unreadable")
            if dynamic is None:
                return node.content
            if len(dynamic.calls) <= marks[id(dynamic)]:
                self.fail("the content provider was not consulted by this read")
            if dynamic.fail:
                self.obs.ev("failing content reads")
                raise Refused("provider fails")
            return dynamic.last
        if name in ("ls", "sls"):
            node = model.need(model.lex(op[1]))
            if node.kind != "d":
                if name == "ls" or not node.pol.readable and not self.ok:
                    raise Refused("not a directory")
                return node.name
            if not node.pol.readable:
                raise Refused("unreadable")
            kids = sorted(node.children.values(), key=lambda c: (c.kind != "d", c.name))
            if name == "ls":
                return [(c.name, c.kind == "d") for c in kids]
            hidden = [c for c in kids if c.pol.principals]
            return "  ".join(c.name + ("/" if c.kind == "d" else "") for c in kids if c not in hidden)
        if name == "walk":
            return sorted(n.path() for n in model.root.walk())
        if name in ("tree", "stree", "find"):
            node = model.need(model.lex(op[1]))
            if name != "find" and node.kind != "d":
                raise Refused("not a directory")
            if not node.pol.readable and not (name == "find" and node.kind == "f" and self.ok):
                raise Refused("unreadable")
            self.obs.ev("trees rendered")
            return sorted(n.path() for n in node.walk()) if name == "find" else model.tree_text(node)
        if name == "append":
            self.freeze(marks, op[1])
            model.write(op[1], op[2], append=True)
            self.all_read(name)
            self.obs.ev("appends to dynamic content", int(dynamic is not None))
        elif name == "write":
            model.write(op[1], op[2])
        elif name == "touch":
            model.touch(op[1])
        elif name == "mkdir":
            model.mkdir(op[1], parents=True, exist_ok=True)
        elif name == "rm":
            model.remove(op[1], recursive=op[2])
        elif name == "mv":
            try:
                model.move(op[1], op[2])
            except Undefined:  # a file whose provider fails may be moved or not
                if not self.ok:
                    raise Refused("provider fails") from None
                failing = [prov for prov in self.texts if prov.fail]
                for prov in failing:
                    prov.fail = False
                model.move(op[1], op[2])
                for prov in failing:
                    prov.fail = True
        elif name == "cp":
            self.freeze(marks, op[1])
            model.copy(op[1], op[2], recursive=True)
            self.all_read(name)
            node = model.find(model.lex(op[1]))
            self.obs.ev("dynamic copies", int(node is not None and any(n.prov is not None for n in node.walk())))
        elif name == "cd":
            model.cd(op[1])
        elif name == "meta":
            model.set_meta(op[1], op[2])
        elif name == "policy":
            model.set_policy(op[1], Pol(**(op[2] or {})))
        elif name == "snap":
            self.freeze(marks, "/")
            frozen = model.snapshot()
            self.all_read(name)
            return frozen
        model.events.clear()
        return None

    def all_read(self, name):
        if self.unread:
            self.fail(f"{name} did not consult the content provider of {self.unread[0]}")

    def freeze(self, marks, path):
        """Counting providers have moved on; let the model read what the operation read."""
        self.unread = []
        node = self.model.find(self.model.lex(path))
        for item in (node.walk() if node is not None else []):
            prov = item.prov
            if prov is not None and not prov.fail and len(prov.calls) == marks[id(prov)]:
                self.unread.append(item.path())
            if prov is not None and len(prov.calls) > marks[id(prov)] + 1 and prov.counting:
                self.uncertain = True

    def unaltered(self, op, rows, after):
        """Only loading (new nodes below directories with a provider) may have happened."""
        for path, row in rows.items():
            if after.get(path) != row:
                self.fail(f"refused {op[0]} altered {path}: {_short(row)} became {_short(after.get(path))}")
        for path in after:
            if path not in rows and self.model.find(self.model.lex(path)) is None:
                self.fail(f"refused {op[0]} created {path}")

    def partial(self, rows, after):
        self.obs.ev("partial removals")
        for path in after:
            if path in rows and rows[path] != after[path]:
                self.fail(f"partial removal altered {path}")
        for path in rows:
            if path not in after:
                node = self.model.find(self.model.lex(path))
                if node is not None:
                    self.model._detach(node)
        # entries loaded and removed within the same call
        for node in list(self.model.root.walk()):
            if node.parent is None or node.path() in after or self.model.find(node.parts()) is not node:
                continue
            holder = node.parent
            while holder is not None and not (getattr(holder, "listing", None) and not holder.listing.succeeded):
                holder = holder.parent
            if holder is None:
                self.model._detach(node)

    def judge_calls(self, op, marks, lmarks, before_paths, prov_before, operands):
        name = op[0]
        for listing in self.listings:
            had, succeeded, failed = lmarks[id(listing)]
            fresh = listing.calls[had:]
            if not fresh:
                continue
            self.obs.ev("directory provider calls", len(fresh))
            if succeeded:
                self.fail(f"{name} called a directory provider again that had already been used")
            good = len(fresh) - (listing.failed - failed)
            if good > 1:
                self.fail(f"{name} called a directory provider {good} times")
            if id(listing) not in before_paths:
                self.fail(f"{name} called the provider of a directory that is not in the tree")
            if failed and listing.succeeded:
                self.obs.ev("retried after a failure")
            path, meta = before_paths[id(listing)]
            parts = self.model.lex(path)
            if not any(is_below(parts, o) or is_below(o, parts) for o in self.spread(op, operands)):
                self.fail(f"{name} consulted the directory provider of {path}, which it does not name")
            for got_path, got_meta, got_vfs in fresh:
                if got_vfs is not self.vfs:
                    self.fail("a directory provider was given another sandbox")
                if got_path != path:
                    self.fail(f"the directory provider of {path} was asked for {got_path}")
                if got_meta != meta:
                    self.fail(f"the directory provider of {path} was given metadata {got_meta}, expected {meta}")
            if not listing.succeeded and listing.bad is not None and not listing.fail:
                self.obs.ev("invalid names refused")
        for prov in self.texts:
            fresh = prov.calls[marks[id(prov)]:]
            if not fresh:
                continue
            self.obs.ev("content provider calls", len(fresh))
            if id(prov) not in prov_before:
                self.fail(f"{name} called the provider of a file that is not in the tree")
            path, meta = prov_before[id(prov)]
            for got_path, got_meta, got_vfs in fresh:
                if got_vfs is not self.vfs:
                    self.fail("a content provider was given another sandbox")
                if got_path != path and not (name == "mv"):
                    self.fail(f"the content provider of {path} was asked for {got_path}")
                if got_meta != meta:
                    self.fail(f"the content provider of {path} was given metadata {got_meta}, expected {meta}")
            if name in ("ls", "sls", "cd", "touch", "mkdir", "meta", "policy", "write"):
                if path != pstr(operands[0]) or name != "write":
                    self.fail(f"{name} read the dynamic file {path}")

    def spread(self, op, operands):
        found = list(operands)
        if op[0] in ("mv", "cp"):
            found.append(operands[1] + operands[0][-1:])
            found.append(operands[1][:-1])
        return found

    # special operations -----------------------------------------------------------------------------------------------
    def mount(self, op):
        model = self.model
        parts = model.lex(op[1])
        if any(is_below(parts, b) for b in self.blocked_parts()):
            return
        node = model.find(parts)
        try:
            anchor, depth = model.anchor(parts)
        except Refused:
            return
        if node is not None and (node.kind == "d") != (op[0] == "mountd") or anchor.kind == "f" and depth < len(parts):
            return
        if node is None and op[0] == "mountd" and not (anchor.pol.writable and not anchor.pol.append_only):
            return
        if op[0] == "mountd":
            if node is not None and getattr(node, "listing", None) is not None:
                self.vfs.ls(op[1]) if node.pol.readable else self.vfs.exists(op[1] + "/x")  # let the earlier provider finish first
            spec = copy.deepcopy(op[2])
            listing = self.prepare(spec)
            marks = [len(p.calls) for p in self.listings]
            self.vfs.mount_directory(op[1], listing, metadata=dict(op[3]) or None)
            if len(listing.calls):
                self.fail("mounting called the directory provider, which has not been used yet")
            del marks
            model.mkdir(op[1], parents=True, exist_ok=True)
            node = model.need(parts)
            node.meta.update(op[3])
            self.merge(node, listing)
        else:
            prov = self.text_provider(op[2])
            self.vfs.mount_file(op[1], prov, metadata=dict(op[3]) or None)
            if prov.calls:
                self.fail("mounting called the content provider, which has not been read yet")
            model.mount_file(op[1], prov, op[3])

    def toggle(self, op):
        pool = [*self.texts, *self.listings]
        if not pool:
            return
        prov = pool[op[1] % len(pool)]
        if isinstance(prov, Listing) and prov.bad is not None and not op[2]:
            prov.bad = None
        prov.fail = op[2]
        prov.fail_with = ERRORS[op[3]]

    def mutate(self, op):
        """The caller changes what its provider once handed out."""
        pool = [x for x in self.listings if x.handed]
        if not pool:
            return
        listing = pool[op[1] % len(pool)]
        for entries in listing.handed:
            for item in entries.values():
                item.metadata["planted"] = True
                item.content = "planted"
                item.content_provider = lambda ctx: "planted"
                if item.children is not None:
                    item.children["planted"] = ProvidedNode.file(content="planted")
            entries["planted"] = ProvidedNode.file(content="planted")
        self.obs.ev("mutated after use")

    def restore(self, op):
        if not self.snaps:
            return
        real, model = self.snaps[op[1] % len(self.snaps)]
        marks = [len(p.calls) for p in self.texts + self.listings]
        self.vfs.restore(real)
        self.model.restore(model)
        if marks != [len(p.calls) for p in self.texts + self.listings]:
            self.fail("restoring a snapshot consulted a provider")
        self.obs.ev("restores")

    def final(self):
        for prov in self.texts:
            prov.fail, prov.counting = False, False
        for listing in self.listings:
            listing.fail, listing.bad = False, None
        marks = {id(x): (len(x.calls), x.succeeded) for x in self.listings}
        real = digest_real(self.vfs)
        want = self.model.digest()
        if {p: r[:5] for p, r in real.items()} != want:
            self.fail("the tree differs from what was declared and done:\n" + diff(real, want))
        for listing in self.listings:
            calls, succeeded = marks[id(listing)]
            fresh = len(listing.calls) - calls
            if fresh > (0 if succeeded or not self.live(listing) else 1):
                self.fail(f"walking the tree called a directory provider {fresh} times (already used: {succeeded})")
        self.obs.ev("final trees compared")
        self.obs.ev("files compared", sum(1 for r in want.values() if r[0] == "f"))
        self.obs.state("final", sorted(want.items()))


def run_dynamic(case, obs):
    runner = Runner(obs)
    runner.uncertain = False
    for op in case["ops"]:
        runner.step(op)
        if runner.uncertain:
            obs.ev("stopped: a counting provider was read more than once by one operation")
            return
    runner.final()


# -- providers that use the sandbox they are given ------------------------------------------------------------------------
WAYS = ["cat", "cat *", "grep -r", "grep -r /", "rg -i", "search", "find", "tree", "ls", "wc", "head", "cp -r", "mv", "snapshot", "export", "read", "iter_files", "walk", "glob",
        "vfs.search", "copy", "stat", "cat <"]


def gen_active(rng, index, tier):
    places = ["/d", "/d", "/d/sub", "/e", "/"]
    nodes, texts = [], {}
    for number in range(rng.randint(3, 7)):
        top = rng.choice(places)
        nodes.append([top.rstrip("/") + f"/n{number}{rng.choice(['', '.txt'])}", rng.random() < 0.5, rng.choice(["log here", "log above", "new file", "drop", "read", "list", "search",
                                                                                                                   "policy", "write other", "rename"])])
    ops = [[rng.choice(WAYS), rng.random()] for _ in range(rng.randint(3, 8) if tier == "quick" else rng.randint(4, 20))]
    return {"nodes": nodes, "ops": ops, "lazy": rng.random() < 0.3}


class Active:
    """A content provider that also uses the sandbox it is handed."""

    def __init__(self, path, action, obs):
        self.action, self.calls, self.obs = action, 0, obs
        self.text = f"tok-{path}-dynamic\n"

    def __call__(self, ctx):
        vfs, self.calls = ctx.vfs, self.calls + 1
        parent = str(ctx.path.parent).rstrip("/")
        self.obs.ev("providers that used the sandbox")
        if self.action == "log here":
            vfs.append_file(f"{parent}/log", f"{ctx.path}\n")
        elif self.action == "log above":
            vfs.append_file("/log", f"{ctx.path}\n")
        elif self.action == "new file":
            vfs.write_file(f"{parent}/made/{self.calls % 5}-{self.calls}", "made\n")
            vfs.write_file(f"{parent}/made-{self.calls}", "made\n")
        elif self.action == "drop":
            if vfs.exists(f"{parent}/spare-1"):
                vfs.remove(f"{parent}/spare-1")
            else:
                vfs.touch(f"{parent}/spare-1")
        elif self.action == "rename":
            for one, two in (("spare-2", "spare-3"), ("spare-3", "spare-2")):
                if vfs.exists(f"{parent}/{one}"):
                    vfs.move(f"{parent}/{one}", f"{parent}/{two}")
                    break
            else:
                vfs.touch(f"{parent}/spare-2")
        elif self.action == "read":
            vfs.read_file("/plain")
        elif self.action == "list":
            vfs.ls("/")
            vfs.tree(parent or "/")
        elif self.action == "search":
            vfs.glob("*", cwd=parent or "/")
        elif self.action == "policy":
            vfs.get_node(ctx.path).metadata["seen"] = self.calls
        else:
            vfs.write_file("/other", f"{self.calls}\n")
        return self.text


def run_active(case, obs):
    import pathlib
    import shutil
    import tempfile

    from sandfs import SearchQuery

    vfs = VirtualFileSystem()
    shell = SandboxShell(vfs)
    vfs.write_file("/plain", "tok-plain\n")
    given, texts = [], {"/plain": "tok-plain\n"}
    for path, dynamic, action in case["nodes"]:
        provider = Active(path, action, obs)
        if dynamic:
            given.append(provider)
            vfs.mount_file(path, provider)
        else:
            provider.text = f"tok-{path}-static\n"
            vfs.write_file(path, provider.text)
        texts[path] = provider.text
    if case["lazy"]:
        maker = Active("/lazy/one", "log above", obs)
        texts["/lazy/one"] = maker.text
        texts["/lazy/two"] = "tok-two\n"

        def provide(ctx):
            ctx.vfs.append_file("/log", "lazy\n")
            ctx.vfs.write_file("/before-lazy", "x")
            return {"one": ProvidedNode.file(content_provider=maker), "two": ProvidedNode.file(content="tok-two\n")}

        vfs.mount_directory("/lazy", provide)
    for step, (way, roll) in enumerate(case["ops"]):
        tops = sorted({"/"} | {p.rsplit("/", 1)[0] or "/" for p in texts})
        top = tops[int(roll * len(tops))]
        inside = {p: t for p, t in texts.items() if is_below(tuple(p.split("/")[1:]), tuple(x for x in top.split("/") if x))}
        direct = {p: t for p, t in inside.items() if (p.rsplit("/", 1)[0] or "/") == top}
        one = sorted(texts)[int(roll * len(texts))]
        calls = sum(g.calls for g in given)
        expect, output = [], ""
        try:
            if way in ("snapshot", "export", "read", "iter_files", "walk", "glob", "vfs.search", "copy"):
                if way == "snapshot":
                    vfs.restore(vfs.snapshot())
                    given = []  # all text is static from here on
                    for path, text in texts.items():
                        if vfs.read_file(path) != text:
                            raise Violation(f"restoring a snapshot with providers that use the sandbox gives {path} as {vfs.read_file(path)!r}")
                elif way == "export":
                    target = pathlib.Path(tempfile.mkdtemp())
                    try:
                        vfs.export_to_path(target, source="/")
                        output = "\n".join((target / p[1:]).read_text(encoding="utf-8") if (target / p[1:]).is_file() else "" for p in texts)
                    finally:
                        shutil.rmtree(target)
                    expect = list(texts.values())
                elif way == "read":
                    output, expect = vfs.read_file(one), [texts[one]]
                elif way == "iter_files":
                    output, expect = "\n".join(f"{p} {n.read(vfs)}" for p, n in vfs.iter_files(top)), list(inside.values())
                elif way == "walk":
                    output, expect = "\n".join(f"{p} {n.read(vfs) if hasattr(n, 'read') else ''}" for p, n in vfs.walk(top)), list(inside.values())
                elif way == "glob":
                    output, expect = "\n".join(vfs.glob("*", cwd=top)), list(direct)
                elif way == "vfs.search":
                    output, expect = "\n".join(r.line_text for r in vfs.search(SearchQuery("tok"))), [t.strip() for t in texts.values()]
                else:
                    vfs.copy(top if top != "/" else "/d", f"/copy{step}", recursive=True) if top != "/" else None
                    if top != "/":
                        output = "\n".join(vfs.read_file(f"/copy{step}" + p[len(top):]) for p in inside)
                        expect = list(inside.values())
            else:
                command, expect = {
                    "cat": (f"cat {one}", [texts[one]]), "cat *": (f"cat {top.rstrip('/')}/n*", [t for p, t in direct.items() if p.rsplit('/', 1)[1].startswith("n")]),
                    "grep -r": (f"grep -r tok {top}", [t.strip() for t in inside.values()]), "grep -r /": ("grep -r tok /", [t.strip() for t in texts.values()]),
                    "rg -i": (f"rg -i TOK {top}", [t.strip() for t in inside.values()]), "search": (f"search tok {top}", [t.strip() for t in inside.values()]),
                    "find": (f"find {top}", list(inside)), "tree": (f"tree {top}", [p.rsplit("/", 1)[1] for p in inside]), "ls": (f"ls {top}", [p.rsplit("/", 1)[1] for p in direct]),
                    "wc": (f"wc {' '.join(sorted(inside))}", list(inside)), "head": (f"head {' '.join(sorted(inside))}", list(inside.values())),
                    "cp -r": (f"cp -r {top} /copy{step}" if top != "/" else "pwd", []), "mv": (f"mv {top} /moved{step}" if top != "/" else "pwd", []),
                    "stat": (f"stat {one}", [one]), "cat <": (f"cat < {one}", [texts[one]]),
                }[way]
                if way == "cat *" and not expect:
                    continue
                result = shell.exec(command)
                output = result.stdout
                if result.exit_code != 0:
                    raise Violation(f"{command!r} over providers that use the sandbox failed: {result.stderr!r}")
                if way == "mv" and top != "/":
                    texts = {(f"/moved{step}" + p[len(top):] if p in inside else p): t for p, t in texts.items()}
                if way == "cp -r" and top != "/":
                    texts |= {f"/copy{step}" + p[len(top):]: t for p, t in inside.items()}
            if way == "copy" and top != "/":
                texts |= {f"/copy{step}" + p[len(top):]: t for p, t in inside.items()}
        except SandboxError as exc:
            raise Violation(f"{way} {top} over providers that use the sandbox failed: {exc!r}") from exc
        obs.ev("operations over active providers", int(sum(g.calls for g in given) != calls))
        for text in expect:
            if text not in output:
                raise Violation(f"{way} {top} over providers that use the sandbox misses {text!r}: {output!r}")
        obs.state("active", way, top, repr(case["nodes"]))


def families():
    return [Family("dynamic", 8000, 100000, gen_case, run_dynamic), Family("active", 1500, 12000, gen_active, run_active)]
