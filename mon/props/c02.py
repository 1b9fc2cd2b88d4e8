"""C02: path spellings resolve lexically and never leave the root."""

import fnmatch
from pathlib import PurePosixPath

from ..core import Family
from ..gen import Gen
from ..model import pstr
from ..sim import Sim, _short, q, plain_for_shell

RULE = ("A case is a history of every path-taking operation, each path written in a random spelling (relative to the current "
        "directory, '.', '..', climbing above the root, repeated and trailing slashes, PurePosixPath objects), judged against "
        "lexical resolution on the reference map; observed: distinct tree states compared after a step.")
ASSUMPTIONS = ["single-threaded use"]
REQUIRE = {"cd ok": 500, "read probes": 2000, "shell read probes": 800, "glob probes": 300, "prefix probes": 200}
QUICK_TIMES = 4

WEIGHTS = {"write": 8, "append": 3, "touch": 2, "mkdir": 5, "rm": 3, "rmr": 2, "mv": 6, "cp": 4, "cpr": 2, "cd": 9,
           "reads": 8, "shreads": 8, "policy": 1, "meta": 1, "search": 1, "shsearch": 3}


def gen_spell(rng, index, tier):
    g = Gen(rng, weights=dict(WEIGHTS), fancy=0.92, via=(4, 3, 4), big=False, polprob={"none": 3, "cls": 1, "ro": 1})
    g.run(rng.randint(3, 6))
    extra = []
    for _ in range(rng.randint(8, 22)):
        g.run(len(g.ops) + 1)
        if rng.random() < 0.25:
            g.ops.append(["globs", g.sp(g.some_dir().parts()), rng.choice(["*", "a*", "?", "[a-c]*", "*.txt", "x", "*/*", "./*", "../*"])])
        if rng.random() < 0.2:
            g.ops.append(["prefixes", g.sp(g.target("d")), g.sp(g.target("new")), rng.randrange(1000)])
    del extra
    return {"ops": g.ops}


class SpellSim(Sim):
    def do_globs(self, op):
        """glob() relative to the current directory or to an explicit one."""
        _, where, pattern = op
        node = self.model.find(self.model.lex(where))
        if node is None or node.kind != "d" or not node.pol.readable:
            return
        self.obs.ev("glob probes")
        base = node.path()
        if "/" not in pattern:
            want = sorted(c.path() for c in node.children.values() if fnmatch.fnmatchcase(c.name, pattern))
        elif ".." in pattern:
            return
        else:
            full = str(PurePosixPath(base).joinpath(pattern))
            want = sorted(n.path() for n in self.model.root.walk() if fnmatch.fnmatchcase(n.path(), full))
        got = sorted(self.vfs.glob(pattern, cwd=where))
        if got != want:
            self.fail(f"glob({pattern!r}, cwd={where!r}) gave {_short(got)}, expected {_short(want)}")
        if "/" not in pattern and self.model.cwd.pol.readable and not self.model.cwd_detached:
            want = sorted(c.path() for c in self.model.cwd.children.values() if fnmatch.fnmatchcase(c.name, pattern))
            got = sorted(self.vfs.glob(pattern))
            if got != want:
                self.fail(f"glob({pattern!r}) in {self.vfs.pwd()} gave {_short(got)}, expected {_short(want)}")
            if want:
                result = self.shell.exec(f"echo {pattern}")
                if sorted(result.stdout.removesuffix("\n").split(" ")) != sorted(" ".join(want).split(" ")):
                    self.fail(f"'echo {pattern}' in {self.vfs.pwd()} printed {_short(result.stdout)}, expected {_short(want)}")
        if self.shell.exec("pwd").stdout != self.model.cwd.path():
            self.fail("the pwd command disagrees with the current directory")

    def do_prefixes(self, op):
        """Hooks, mounts and providers given odd spellings attach to the resolved place."""
        _, where, fresh, number = op
        node = self.model.find(self.model.lex(where))
        if node is None or node.kind != "d" or not node.pol.writable or node.pol.append_only:
            return
        self.obs.ev("prefix probes")
        self.add_hook("p", where)
        name = f"probe{number}"
        target = node.path().rstrip("/") + "/" + name
        self.model.events = []
        self.model.write(target, "p")
        self.vfs.write_file(target, "p")
        self.judge_events(self.take_events())
        kind = number % 4
        if kind == 0:
            spelled = where.rstrip("/") + f"/./dyn{number}/" if where else f"dyn{number}"
            place = self.model.lex(spelled)
            if self.model.find(place) is None:
                self.vfs.mount_file(spelled.rstrip("/"), lambda ctx: f"at {ctx.path}")
                got = self.vfs.read_file(pstr(place))
                if got != f"at {pstr(place)}":
                    self.fail(f"mount_file({spelled!r}) provides {got!r}, expected it at {pstr(place)}")
                self.vfs.remove(pstr(place))
        elif kind == 1:
            from sandfs import MemoryStorageAdapter

            spelled = (where.rstrip("/") + "/" if where else "") + f"st{number}/../st{number}"
            place = self.model.lex(spelled)
            adapter = MemoryStorageAdapter(initial={"in": "side"})
            self.vfs.mount_storage(spelled, adapter)
            self.vfs.write_file(pstr(place) + "/w", "1")
            if self.vfs.read_file(pstr(place) + "/in") != "side" or set(adapter.list()) != {"in", "w"}:
                self.fail(f"mount_storage({spelled!r}) is not at {pstr(place)}")
            self.vfs.sync_storage(spelled)
            self.vfs.remove(pstr(place), recursive=True)
        elif kind == 2 and plain_for_shell(where) and where and not where.startswith("-"):
            result = self.shell.exec(f"find {q(where)} -name {q(name)}")
            if target not in result.stdout.split("\n"):
                self.fail(f"find {where!r} -name {name!r} printed {_short(result.stdout)}, expected {target}")
        self.take_events()
        from ..sim import digest_real

        self.before = digest_real(self.vfs)
        self.judge_state(self.before)


def run(case, obs):
    sim = SpellSim(obs)
    try:
        for op in case["ops"]:
            sim.step(op)
        sim.final()
    finally:
        sim.close()


def families():
    return [Family("spellings", 1500, 22000, gen_spell, run)]
