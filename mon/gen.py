"""Workload generators. A shadow model is run while generating so that operations hit interesting targets."""

from __future__ import annotations


from .model import MStore, Prov, RefFS, Refused, Undefined, clone, is_below, pstr
from .sim import Sim, expand

NAMES = [
    "a", "b", "c", "ab", "abc", "a.txt", "a.txt.bak", "b.md", "A", "data", "data2", "dat", "notes", "notes.md", "src",
    ".hid", "..x", "...", "x y", "é", "日本", "e\u0301", "n-dash", "under_score", "UP", "0", "log.1", "quote'd", 'd"q',
    "semi;x", "hash#x", "til~", "per%s", "eq=al", "amp&", "@at", "back\\slash", "long" * 25, "tmp", "lib", "Data",
    "a b  c", "x.tar.gz", "init", "_", "a|b", "less<", "gr>er", "(p)", "{b}", "name.", "root", "@search2", "workspace",
    " lead", "trail ", " both ", "tab\t", "-dash",
    "back~", "._x", ".DS_Store", ".git", "__pycache__", "x.pyc", "a.swp", "#auto#", "Thumbs.db", "node_modules", ".env", "lost+found", "CON", "a:b", "desktop.ini",
    "~", "~root", "--", "a+b", "%41", "@searches", "\u00a0nb", "C:", "none", "self", "..~",
    " ", "  ", " .", ". ", ".. ", " ..", "\u3000", "a.tmp", "b.bak", "c.lock", "d~", ".e.swp", "f.part", "g.orig", ".tmp-h",
]
TEXTS = [
    "", "x", "hello\n", "line one\nline two\n", "no newline at end", "crlf\r\nlines\r\n", "mixed\r\nof\nall\r", "é ü 日本 😀\n",
    "\ufeffbom", "tab\tsep", " ", "  lead and trail  ", "\n\n\n", "0", "None", "%s %d %%", "{} {0}", "back\\nslash",
    "a\x0bb\x0cc", "sep\u2028para\u2029x\n", "quote ' \" ` mix", "a|b>c<d;e&f", "TODO fix me\nfixme later\n", "\x1b[0m\x00nul",
    "end\n\n", "=", "#comment", "~", "key=value\nkey2=value2\n",
]
WORDS = ["alpha", "beta", "gamma", "todo", "TODO", "fix", "x", "error", "warn", "é", "42", "a.b", "data", "[q]", "end", "İ", "ß"]


def text(rng, tag: str = "", big: bool = True) -> str:
    roll = rng.random()
    if roll < 0.45:
        return rng.choice(TEXTS)
    if roll < 0.9 or not big:
        lines = [" ".join(rng.choice(WORDS) for _ in range(rng.randint(0, 4))) for _ in range(rng.randint(1, 5))]
        return f"{tag}{rng.choice(chr(10) * 3 + chr(13))}".join(lines) + rng.choice(["", "\n", "\r\n"])
    if roll < 0.97:
        return "\n".join(f"row {i} {rng.choice(WORDS)}" for i in range(rng.randint(20, 130)))
    return rng.choice(["B", "éx", "ab\n"]) * rng.choice([4097, 8193, 40000, 70001])


def simple_text(rng) -> str:
    return " ".join(rng.choice(["alpha", "beta", "todo", "x", "é", "42", "a|b", "c>d"]) for _ in range(rng.randint(0, 4)))


def spell(rng, model: RefFS, parts, fancy: float = 0.5) -> str:
    """A spelling of an absolute location."""
    parts = list(parts)
    if rng.random() > fancy:
        return pstr(parts)
    cwd = list(model.cwd.parts())
    pieces: list[str]
    if rng.random() < 0.5:
        common = 0
        while common < len(cwd) and common < len(parts) and cwd[common] == parts[common]:
            common += 1
        if rng.random() < 0.25:
            common = rng.randint(0, common)
        pieces = [".."] * (len(cwd) - common) + parts[common:]
        if rng.random() < 0.2:
            pieces = [".."] * rng.randint(1, 3) + pieces if len(cwd) == common == 0 else pieces
        absolute = False
    else:
        pieces = list(parts)
        absolute = True
        if rng.random() < 0.3:
            pieces = [".."] * rng.randint(1, 3) + pieces
    out: list[str] = []
    for piece in pieces:
        if rng.random() < 0.15:
            out.append(".")
        if rng.random() < 0.15:
            out.extend([rng.choice(["a", "zz", "x y", "nope", "..."]), ".."])
        out.append(piece)
        if rng.random() < 0.1:
            out.append("")
    if not absolute and not out:
        return rng.choice([".", "./", ""])
    body = "/".join(out)
    if absolute:
        body = "/" * rng.choice([1, 1, 1, 2, 3]) + body
    elif body.startswith("/"):
        body = "." + body
    elif rng.random() < 0.2:
        body = "./" + body
    if rng.random() < 0.25 and body:
        body += "/" * rng.randint(1, 2)
    if rng.random() < 0.1 and body:
        body += "/." if not body.endswith("/") else "."
    return body


class Shadow:
    """Model-only twin of Sim used while generating."""

    model_op = Sim.model_op
    expected_version = Sim.expected_version

    def __init__(self) -> None:
        self.model = RefFS()
        self.provs: list[Prov] = []
        self.stores: list[tuple] = []
        self.snaps: list[tuple] = []

    def apply(self, op) -> str:
        name = op[0]
        if name == "store":
            self.stores.append((None, MStore(op[1], op[2]), None))
            return "ok"
        if name == "provfail":
            if self.provs:
                self.provs[op[1] % len(self.provs)].fail = op[2]
            return "ok"
        if name == "ext":
            if self.stores:
                self.stores[op[1] % len(self.stores)][1].external(op[2], op[3])
            return "ok"
        if name == "extdel":
            if self.stores:
                self.stores[op[1] % len(self.stores)][1].external_delete(op[2])
            return "ok"
        if name == "polmut":
            node = self.model.find(self.model.lex(op[1]))
            if node is not None:
                node.pol = node.pol.clone()
                if op[2] == "principals":
                    node.pol.principals |= {op[3]}
                else:
                    setattr(node.pol, op[2], op[3])
            return "ok"
        if name == "bulk":
            for sub in expand(op):
                self.apply(sub)
            return "ok"
        if name == "script":
            for sub in op[1]:
                if self.apply(sub) == "refused":
                    break
            return "ok"
        if name in ("hook", "index", "search", "shsearch", "reads", "shreads", "fault"):
            return "ok"
        if name == "restore" and not self.snaps:
            return "skip"
        if name == "mount" and (op[2] >= len(self.stores) or any(
                s is self.stores[op[2]][1] for s in self.model.mounts.values())):
            return "skip"
        if name == "mountf":
            self.provs.append(Prov(op[2], path_dependent=op[3], fail=op[4]))
        self.model.events = []
        try:
            got = self.model_op(op)
        except Refused:
            return "refused"
        if name == "snap":
            self.snaps.append((None, got))
        return "ok"


class Gen:
    DEFAULT = {
        "write": 10, "append": 5, "touch": 2, "mkdir": 5, "rm": 4, "rmr": 3, "mv": 7, "cp": 6, "cpr": 3, "cd": 3,
        "reads": 4, "shreads": 2,
    }

    def __init__(self, rng, *, weights=None, names=None, fancy=0.4, via=(6, 1, 2), expected=0.15, polprob=None,
                 maxdepth=5, plain_text=False, big=True, miss=0.2):
        self.rng, self.shadow, self.ops = rng, Shadow(), []
        self.weights = dict(weights or self.DEFAULT)
        pool = list(names or NAMES)
        keep = rng.randint(4, 9)
        self.names = rng.sample(pool, min(len(pool), keep))
        self.fancy, self.via_weights, self.expected = fancy, via, expected
        self.maxdepth, self.plain_text, self.big, self.miss = maxdepth, plain_text, big, miss
        self.polprob = polprob or {"ro": 3, "ao": 2, "ur": 2, "none": 3}
        self.counter = 0
        self.dead = False
        self.gone: list[tuple] = []  # places files and directories once were
        self.past: list[str] = []  # texts files once had

    @property
    def model(self) -> RefFS:
        return self.shadow.model

    # -- targets ---------------------------------------------------------
    def nodes(self, kind=None):
        return [n for n in self.model.root.walk() if (kind is None or n.kind == kind)]

    def some_dir(self):
        dirs = [n for n in self.nodes("d") if len(n.parts()) < self.maxdepth]
        return self.rng.choice(dirs or [self.model.root])

    def new_parts(self, deep: float = 0.2):
        if self.gone and self.rng.random() < 0.15:
            return self.rng.choice(self.gone)
        parts = list(self.some_dir().parts())
        for _ in range(1 if self.rng.random() > deep else self.rng.randint(2, 3)):
            parts.append(self.rng.choice(self.names))
        return tuple(parts)

    def target(self, prefer: str):
        """prefer: f, d, any, new. Sometimes something unsuitable."""
        rng = self.rng
        roll = rng.random()
        if roll < self.miss * 0.4:
            nodes = self.nodes()
            return rng.choice(nodes).parts()
        if roll < self.miss * 0.6:
            files = self.nodes("f")
            if files:
                return rng.choice(files).parts() + (rng.choice(self.names),)
        if roll < self.miss * 0.65:
            return ()
        if roll < self.miss:
            return self.new_parts(0.5)
        if prefer == "new":
            return self.new_parts()
        nodes = self.nodes(None if prefer == "any" else prefer)
        if prefer != "f":
            nodes = [n for n in nodes if n.parent is not None] or nodes
        if not nodes:
            return self.new_parts()
        return rng.choice(nodes).parts()

    def related(self, source):
        """A destination near the source: siblings, renames, ancestors, descendants, same-named places."""
        rng = self.rng
        source = tuple(source)
        parent = source[:-1]
        at = self.model.find(parent)
        kids = [c for c in at.children.values()] if at is not None and at.kind == "d" else []
        dirs = [c.parts() for c in kids if c.kind == "d" and c.parts() != source]
        roll = rng.random()
        if roll < 0.3 and dirs:
            spot = rng.choice(dirs)
            return spot if rng.random() < 0.5 else spot + (rng.choice([source[-1] if source else "a", rng.choice(self.names)]),)
        if roll < 0.5 and kids:
            return rng.choice(kids).parts()
        if roll < 0.65:
            return parent + (rng.choice(self.names),)
        if roll < 0.8 and parent:
            return source[: rng.randint(0, len(parent))]
        inside = [n.parts() for n in self.nodes("d") if n.parts()[: len(source)] == source]
        if roll < 0.9 and inside:
            return rng.choice(inside)
        named = [n.parts() for n in self.nodes() if n.parts() and source and n.parts()[-1] == source[-1] and n.parts() != source]
        if named:
            spot = rng.choice(named)
            return spot if rng.random() < 0.5 else spot[:-1]
        return parent

    def sp(self, parts) -> str:
        return spell(self.rng, self.model, parts, self.fancy)

    def via(self) -> str:
        return self.rng.choices(("api", "posix", "shell"), self.via_weights)[0]

    def body(self) -> str:
        self.counter += 1
        if self.plain_text or self.rng.random() < 0.3:
            return simple_text(self.rng)
        return text(self.rng, big=self.big)

    def policy(self, kinds=None) -> dict:
        kinds = kinds or self.polprob
        what = self.rng.choices(list(kinds), list(kinds.values()))[0]
        return {
            "ro": {"writable": False}, "ao": {"append_only": True}, "ur": {"readable": False}, "none": {},
            "rw-ao": {"append_only": True, "readable": False}, "all": {"writable": False, "readable": False},
            "cls": {"classification": self.rng.choice(["public", "private", "secret"])},
        }[what]

    # -- one operation ------------------------------------------------------
    def make(self, what: str):
        rng = self.rng
        if what in ("write", "append"):
            parts = self.target("f" if rng.random() < 0.55 else "new")
            want = None
            if rng.random() < self.expected:
                want = rng.choice(["cur", "cur", "stale", "ahead", 0, 1, 2])
            append = False
            if what == "append":
                append = rng.choice([True, "append_file"])
            return ["write", self.sp(parts), self.body(), append, want, self.via()]
        if what == "touch":
            return ["touch", self.sp(self.target(rng.choice(["f", "new"]))), self.via()]
        if what == "mkdir":
            parents = rng.random() < 0.5
            exist = rng.random() < 0.4 if rng.random() < 0.5 else parents
            return ["mkdir", self.sp(self.target("new" if rng.random() < 0.75 else "d")), parents, exist, self.via()]
        if what == "rm":
            return ["rm", self.sp(self.target(rng.choice(["f", "f", "d"]))), False, self.via()]
        if what == "rmr":
            return ["rm", self.sp(self.target("d" if rng.random() < 0.7 else "f")), True, self.via()]
        if what == "mv":
            source = self.target("any")
            target = self.target(rng.choice(["new", "new", "new", "d", "any"]))
            if rng.random() < 0.1:
                target = tuple(source) + (rng.choice(self.names),)
            if rng.random() < 0.08:
                target = tuple(source)[:-1]
            if rng.random() < 0.3:
                target = self.related(source)
            return ["mv", self.sp(source), self.sp(target), self.via()]
        if what in ("cp", "cpr"):
            source = self.target("f" if what == "cp" else "d")
            target = self.target(rng.choice(["new", "new", "f", "d"]))
            if rng.random() < 0.08:
                target = tuple(source) + (rng.choice(self.names),)
            if rng.random() < 0.3:
                target = self.related(source)
            return ["cp", self.sp(source), self.sp(target), what == "cpr", self.via()]
        if what == "cd":
            return ["cd", self.sp(self.target("d")), self.via()]
        if what == "policy":
            return ["policy", self.sp(self.target("any")), self.policy()]
        if what == "meta":
            return ["meta", self.sp(self.target("any")), {rng.choice(["k", "tag", "owner"]): rng.choice([1, "v", "w", None])}]
        if what == "reads":
            return ["reads", self.sp(self.target("any")), rng.choice(["api", "posix"])]
        if what == "shreads":
            return ["shreads", self.sp(self.target("any"))]
        if what == "mountf":
            return ["mountf", self.sp(self.target(rng.choice(["new", "new", "f"]))), self.body(), rng.random() < 0.5,
                    False, {"m": 1} if rng.random() < 0.3 else None]
        if what == "provfail":
            return ["provfail", rng.randrange(8), rng.random() < 0.6]
        if what == "store":
            kind = rng.choice(["mem", "mem", "dir"])
            initial = {}
            twins = [dict(op[2]) for op in self.ops if op and op[0] == "store"]
            if twins and rng.random() < 0.2:
                return ["store", kind, rng.choice(twins)]
            for _ in range(rng.randint(0, 4)):
                parts = [rng.choice(self.names) for _ in range(rng.randint(1, 3))]
                rel = "/".join(parts)
                if not any(rel == other or rel.startswith(other + "/") or other.startswith(rel + "/") for other in initial):
                    initial[rel] = text(rng, big=False)
            return ["store", kind, initial]
        if what == "mount":
            free = [i for i, (_, s, _) in enumerate(self.shadow.stores)
                    if not any(s is used for used in self.model.mounts.values())]
            if not free:
                return self.make("store")
            parts = self.target(rng.choice(["new", "new", "d"]))
            if self.model.mounts and rng.random() < 0.4:
                parts = rng.choice(list(self.model.mounts)) + (rng.choice(self.names),)
            if not parts:
                return None
            return ["mount", self.sp(parts), rng.choice(free), self.policy() if rng.random() < 0.2 else None]
        if what == "sync":
            if self.model.mounts and rng.random() < 0.9:
                return ["sync", self.sp(rng.choice(list(self.model.mounts)))]
            return ["sync", self.sp(self.target("d"))]
        if what == "snap":
            return ["snap"]
        if what == "restore":
            return ["restore", rng.randrange(12)] if self.shadow.snaps else None
        if what == "hook":
            parts = self.target(rng.choice(["d", "any", "new"]))
            if rng.random() < 0.2:
                parts = ()
            return ["hook", rng.choice("wwppppiis"), self.sp(parts)]
        if what == "index":
            return ["index"]
        if what == "search":
            return self.search_op()
        if what == "shsearch":
            op = self.search_op()
            return ["shsearch", *op[1:4], op[4] or "/"]
        if what == "fault":
            if not self.shadow.stores:
                return None
            return ["fault", rng.randrange(len(self.shadow.stores)), rng.choice(["write", "write", "delete", "list", "read"]),
                    rng.choice([0, 0, 0, 1, 1, 2, 4]), rng.choice(["os", "os", "value", "runtime", "key"])]
        if what == "polmut":
            field, value = rng.choice([("writable", False), ("readable", False), ("append_only", True),
                                       ("classification", "secret"), ("principals", "zed"), ("writable", True)])
            return ["polmut", self.sp(self.target("any")), field, value]
        if what == "script":
            # Sub-operations are made against the state before the script; most still apply.
            subs = []
            for _ in range(rng.randint(2, 5)):
                sub = self.make(rng.choice(["write", "append", "write", "rm", "mv", "cp", "touch", "mkdir"]))
                if sub[0] == "write":
                    sub = [*sub[:2], simple_text(rng), sub[3], None, "shell"]
                if sub[0] == "mkdir":
                    sub = ["mkdir", sub[1], True, True, "shell"]
                subs.append(sub)
            return ["script", subs]
        if what == "ext":
            if not self.shadow.stores:
                return None
            index = rng.randrange(len(self.shadow.stores))
            store = self.shadow.stores[index][1]
            if store.entries and rng.random() < 0.85:
                return ["ext", index, rng.choice(sorted(store.entries)), f"ext{self.counter} " + text(rng, big=False)]
            self.counter += 1
            return ["ext", index, f"ext{self.counter}", text(rng, big=False)]
        if what == "extdel":
            used = [(i, s) for i, (_, s, _) in enumerate(self.shadow.stores)
                    if s.entries and any(s is other for other in self.model.mounts.values())]
            if not used:
                return None
            index, store = rng.choice(used)
            return ["extdel", index, rng.choice(sorted(store.entries))]
        raise AssertionError(what)

    def search_op(self):
        rng = self.rng
        files = self.nodes("f")
        query = rng.choice(WORDS)
        if self.past and rng.random() < 0.25:
            line = rng.choice(rng.choice(self.past).splitlines() or ["x"])[:40]
            query = line[: rng.randint(3, 12)]
        elif files and rng.random() < 0.5:
            try:
                lines = rng.choice(files).read().splitlines()
            except Refused:
                lines = []
            if lines:
                line = rng.choice(lines)[:40]
                start = rng.randint(0, max(0, len(line) - 1))
                query = line[start:start + rng.randint(1, 8)]
        if rng.random() < 0.02:
            query = ""
        regex = rng.random() < 0.35
        if regex:
            query = rng.choice(["^a", "o$", "[a-z]+", "\\d+", "t.d.", "x|y", "^$", "(fix|todo)", "\\bx\\b", "^.", "e+r", "^line"])
        prefix = None
        roll = rng.random()
        if roll < 0.6:
            prefix = self.sp(self.target(rng.choice(["d", "d", "f", "new"])))
        elif roll < 0.7:
            prefix = "/"
        return ["search", query, regex, rng.random() < 0.4, prefix]

    def add(self, op) -> bool:
        if op is None or self.dead:
            return False
        saved = None
        if op[0] in ("mount", "sync", "script", "rm"):
            saved = clone((self.shadow.model, self.shadow.stores, self.shadow.snaps, self.shadow.provs))
        was = [(n.parts(), n.content if n.kind == "f" and n.prov is None else None) for n in self.model.root.walk()] if op[0] in (
            "rm", "mv", "write", "restore", "sync", "cp") else ()
        try:
            self.shadow.apply(op)
        except Undefined:
            if saved is not None:
                self.shadow.model, self.shadow.stores, self.shadow.snaps, self.shadow.provs = saved
            return False
        self.ops.append(op)
        for parts, content in was:
            now = self.model.find(parts)
            if now is None and parts:
                self.gone = [*self.gone[-7:], parts]
            if content and (now is None or now.kind != "f" or now.content != content):
                self.past = [*self.past[-7:], content]
        return True

    def run(self, count: int):
        names, values = list(self.weights), list(self.weights.values())
        tries = 0
        while len(self.ops) < count and tries < count * 3 and not self.dead:
            tries += 1
            self.add(self.make(self.rng.choices(names, values)[0]))
        return self.ops


COUNTS = [11, 17, 33, 51, 65, 101, 129, 130, 257, 300]
LENGTHS = [33, 65, 101, 129, 200, 255]
DEPTHS = [9, 17, 33, 40, 65, 101]
SIZES = [129, 257, 1025, 4097, 8193, 65537, 70001]
SMALL = {"write": 4, "append": 3, "touch": 1, "mkdir": 2, "rm": 2, "rmr": 2, "mv": 4, "cp": 2, "cpr": 2, "cd": 1, "reads": 2, "shreads": 1}


def sizes(rng, *, weights=SMALL, steps=(3, 8), start=(), huge=0.05, **kwargs):
    """A history over a tree that is large in one or two respects: entries, depth, names, text, versions."""
    g = Gen(rng, **{"weights": weights, "fancy": 0.1, "big": False, "miss": 0.08, "expected": 0.1, "maxdepth": 200, **kwargs})
    for op in start:
        g.add(op if isinstance(op, list) else g.make(op))
    plain = [name for name in g.names if "/" not in name]
    mounted = [pstr(parts) for parts in g.model.mounts]
    for what in rng.sample(["files", "deep", "name", "rewrite", "append", "text", "lines", "dirs", "shuffle"], rng.randint(1, 3)):
        top = rng.choice(mounted) if mounted and rng.random() < 0.7 else "/" + rng.choice(plain)
        spot = f"{top}/{what}"
        if what == "files":
            count = rng.choice(COUNTS)
            g.add(["bulk", "files", spot, count, rng.choice(["n", "text ", ""])])
            if rng.random() < 0.4:
                g.add(["bulk", "remove", spot, rng.randint(1, count), ""])
        elif what == "dirs":
            g.add(["bulk", "dirs", spot, rng.choice(COUNTS[:8]), "leaf text"])
        elif what == "deep":
            depth = rng.choice(DEPTHS)
            chain = "/".join(rng.choice(["a", "b", f"l{level}"]) for level in range(depth))
            g.add(["write", f"{spot}/{chain}/bottom", "deep text", False, None, "api"])
            g.add(["touch", f"{spot}/{chain}/other", "api"])
        elif what == "name":
            for _ in range(3):
                name = (rng.choice(["n", "long name ", "x.y"]) * 300)[: rng.choice(LENGTHS) - 1].rstrip() + "z"
                g.add(["write", f"{spot}/{name}", "named", False, None, rng.choice(["api", "shell"])])
        elif what in ("rewrite", "append", "shuffle"):
            g.add(["write", spot, "start", False, None, "api"])
            g.add(["bulk", what, spot, rng.choice(COUNTS[:9]), rng.choice(["t", "line\n", "é"])])
        elif what == "text":
            size = rng.choice(SIZES) if rng.random() > huge else 1_100_000
            unit = rng.choice(["x", "é", "日", "word "])
            g.add(["bulk", "text", spot, size // len(unit) + 1, unit])
        else:
            g.add(["bulk", "text", spot, rng.choice([101, 257, 1001, 1025, 2000]), rng.choice(["row\n", "a b\r\n", "\n"])])
    g.run(len(g.ops) + rng.randint(*steps))
    return g


__all__ = ["sizes", "Gen", "NAMES", "TEXTS", "WORDS", "spell", "text", "simple_text", "is_below"]
