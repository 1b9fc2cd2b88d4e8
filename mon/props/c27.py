"""C27: times tell when a node was made and last changed."""

import re
import time
from datetime import datetime
from pathlib import PurePosixPath

from ..core import Family, Violation
from ..gen import Gen
from ..model import is_below
from sandfs import ProvidedNode, SandboxShell, SearchQuery, VirtualFileSystem
from sandfs.exceptions import SandboxError

from ..sim import Sim, _short, digest_real, is_dir_node, plain_for_shell, q

RULE = ("Histories of every operation run over trees whose nodes were given distinct creation and modification times; the clock is read around each "
        "operation and every node's times afterwards are compared with what the operation means for it (set within the call for written, touched, "
        "created and copied nodes, carried along by moves, back to the recorded ones by restores, unchanged for all others). The stat command's size, "
        "version and times are compared with the node's. Counted: distinct (operation, node, time class) observations.")
ASSUMPTIONS = ["the system clock does not run backwards during a call", "nodes (re)loaded from storage by a mount or sync are new nodes"]
REQUIRE = {"times compared": 40000, "written now": 4000, "appended now": 1500, "touched now": 800, "created now": 3000, "copied now": 1500, "carried by a move": 1200,
           "replaced by a copy": 60, "stat outputs compared": 3000, "reads in between": 1500, "refusals in between": 2000, "restores judged": 200, "times of lazily filled nodes compared": 15000}
QUICK_TIMES = 2.5

WEIGHTS = {"write": 8, "append": 5, "touch": 5, "mkdir": 3, "rm": 2, "rmr": 1, "mv": 6, "cp": 5, "cpr": 3, "cd": 1, "reads": 4, "shreads": 3, "policy": 1,
           "meta": 1, "search": 1, "snap": 2, "restore": 2, "index": 0.2, "hook": 0.3, "mountf": 0.7}


def gen_times(rng, index, tier):
    g = Gen(rng, fancy=0.15, miss=0.1, via=(4, 1, 4), big=False, weights={"write": 6, "mkdir": 3},
            polprob={"none": 4, "ro": 1, "ao": 1, "ur": 1})
    g.names = g.names[: rng.randint(3, 6)]
    if rng.random() < 0.2:
        g.add(g.make("store"))
        g.add(g.make("mount"))
    g.run(len(g.ops) + rng.randint(4, 9))
    g.weights = dict(WEIGHTS)
    ops = [["age", rng.randrange(10**6)] if rng.random() < 0.8 else ["look"]]
    base = len(g.ops)
    g.run(base + (rng.randint(8, 20) if tier == "quick" else rng.randint(10, 60)))
    out = [op for op in g.ops[:base] if op is not None]
    for op in g.ops[base:]:
        if op is None:
            continue
        if rng.random() < 0.12:
            out.append(["age", rng.randrange(10**6)])
        out.append(op)
        if rng.random() < 0.3:
            out.append(["look"])
    return {"ops": out[:base] + ops + out[base:]}


class Clocked(Sim):
    def do_age(self, op):
        """Give every node its own past times."""
        at = 1_000_000_000 + op[1] * 100
        for number, (_, node) in enumerate(self.vfs.walk("/")):
            node.created_at = at + number * 7919.5
            node.modified_at = at + number * 7919.5 + [3601.25, 3601.25, -3601.25, 86400 * 40.0, 0.25, -0.75, -1.0, 61.0, -59.5, 0.0][(op[1] * 7 + number) % 10]
        self.before = digest_real(self.vfs)

    def do_look(self, op):
        for path, node in self.vfs.walk("/"):
            path = str(path)
            if not plain_for_shell(path):
                continue
            got = self.shell.exec("stat " + q(path))
            if got.exit_code:
                self.fail(f"stat {path} failed: {got.stderr}")
            self.obs.ev("stat outputs compared")
            text = got.stdout
            want = {
                "Birth": datetime.fromtimestamp(node.created_at).strftime("%Y-%m-%d %H:%M:%S"),
                "Modify": datetime.fromtimestamp(node.modified_at).strftime("%Y-%m-%d %H:%M:%S"),
            }
            if not is_dir_node(node):
                want["Size"] = str(len(node.read(self.vfs)))
                want["Vers"] = str(node.version)
            for label, value in want.items():
                found = re.search(rf"{label}:\s*(\d{{4}}-\d\d-\d\d \d\d:\d\d:\d\d|\d+)", text)
                if not found or found.group(1) != value:
                    self.fail(f"stat {path} shows {label} {found.group(1) if found else None}, the node says {value}")

    def timed(self, op):
        name = op[0]
        before = {p: (s[0], s[5], s[6]) for p, s in self.before.items()}
        paths = {"write": 1, "touch": 1, "mkdir": 1, "mv": 2, "cp": 2}
        src = dst = None
        if name in ("mv", "cp"):
            src = self.model.lex(op[1])
            node = self.model.find(src)
            dst = self.model.lex(op[2])
            at = self.model.find(dst)
            if at is not None and at.kind == "d":
                dst = dst + (src[-1] if src else "",)
        elif name in paths:
            dst = self.model.lex(op[1])
        replaced = dst is not None and "/" + "/".join(dst) in before
        start = time.time()
        outcome = self.step(op)
        end = time.time()
        if name in ("mount", "sync", "restore", "age", "look", "store", "index", "hook", "snap", "script", "mountf", "provfail", "ext", "fault"):
            return  # restores are judged exactly by the step itself
        if outcome == "refused":
            self.obs.ev("refusals in between")
        if name in ("reads", "shreads", "search", "shsearch"):
            self.obs.ev("reads in between")
            self.before = digest_real(self.vfs)  # reads must not have moved anything: compared below
        for path, state in self.before.items():
            parts = tuple(p for p in path.split("/") if p)
            made, changed = state[5], state[6]
            self.obs.ev("times compared")
            now = lambda value: start <= value <= end  # noqa: E731
            if outcome == "ok" and name in ("write", "touch") and parts == dst:
                self.obs.ev({"write": "appended now" if op[0] == "write" and op[3] else "written now", "touch": "touched now"}[name])
                if not now(changed):
                    self.fail(f"{_short(op)}: {path} says it was last changed at {changed}, the call took place {start}..{end}")
                if path in before and made != before[path][1]:
                    self.fail(f"{_short(op)}: the creation time of {path} went from {before[path][1]} to {made}")
            elif outcome == "ok" and name == "mv" and is_below(parts, dst) and src != dst:
                old = "/" + "/".join(src + parts[len(dst):])
                self.obs.ev("carried by a move")
                if (made, changed) != before[old][1:]:
                    self.fail(f"{_short(op)}: {path} has times {(made, changed)}, {old} had {before[old][1:]}")
                continue
            elif outcome == "ok" and name == "cp" and is_below(parts, dst):
                self.obs.ev("replaced by a copy" if replaced else "copied now")
                if not now(changed):
                    self.fail(f"{_short(op)}: the copy {path} says it was last changed at {changed}, the call took place {start}..{end}")
                if not replaced and not now(made):
                    self.fail(f"{_short(op)}: the copy {path} says it was made at {made}, the call took place {start}..{end}")
                continue
            elif path not in before:
                self.obs.ev("created now")
                if not (now(made) and now(changed)):
                    self.fail(f"{_short(op)}: the new {path} has times {(made, changed)}, the call took place {start}..{end}")
            elif (made, changed) != before[path][1:]:
                self.fail(f"{_short(op)}: the times of {path} went from {before[path][1:]} to {(made, changed)}")
            self.obs.state(name, path, path in before, parts == dst)
        if outcome == "ok" and name in ("write", "touch") and not replaced:
            path = "/" + "/".join(dst)
            if not start <= self.before[path][5] <= end:
                self.fail(f"{_short(op)}: the new {path} says it was made at {self.before[path][5]}, the call took place {start}..{end}")


def run(case, obs):
    sim = Clocked(obs)
    try:
        for op in case["ops"]:
            sim.timed(op)
    finally:
        sim.close()


# -- directories filled in on first use --------------------------------------------------------
LAZY_READS = ["ls", "tree", "walk", "exists", "is_dir", "read", "version", "files", "search", "shls", "shtree", "shfind", "shgrep", "stat", "policy", "snapshot",
              "walkall", "index"]


def gen_lazy(rng, index, tier):
    return {"depth": rng.randint(1, 3), "width": rng.randint(1, 3), "at": rng.choice(["/d", "/x/d"]), "old": rng.random() < 0.5,
            "reads": [[rng.choice(LAZY_READS), rng.randrange(100)] for _ in range(rng.randint(2, 7))]}


def run_lazy(case, obs):
    """Looking at a provided directory fills it in, but is no change: neither its times nor its children's move."""
    vfs = VirtualFileSystem()
    shell = SandboxShell(vfs)

    def layer(depth):
        def provide(ctx):
            out = {f"f{n}": ProvidedNode.file(content=f"text {depth} {n}") for n in range(case["width"])}
            if depth < case["depth"]:
                out["sub"] = ProvidedNode.directory(directory_provider=layer(depth + 1))
            return out
        return provide

    vfs.mount_directory(case["at"], layer(1))
    known = {}
    paths = [case["at"]]
    for depth in range(1, case["depth"]):
        paths.append(paths[-1] + "/sub")
    paths += [path + "/f0" for path in list(paths)]

    def look():
        # What is there is looked at from the outside in, without listing the provided directories.
        for path in ["/", str(PurePosixPath(case["at"]).parent), *sorted(paths, key=lambda p: p.count("/"))]:
            if path not in known and path.count("/") > case["at"].count("/"):
                continue  # not filled in as far as we know
            note(path)

    def note(path):
        node = vfs.get_node(path)
        times = (node.created_at, node.modified_at)
        obs.ev("times compared")
        obs.ev("times of lazily filled nodes compared")
        if known.setdefault(path, times) != times:
            raise Violation(f"reading moved the times of {path} from {known[path]} to {times} ({case})")

    note(case["at"])
    if case["old"]:
        node = vfs.get_node(case["at"])
        node.created_at, node.modified_at = 1_000_000_000.5, 1_000_003_600.25
        known[case["at"]] = (1_000_000_000.5, 1_000_003_600.25)
    for what, pick in case["reads"]:
        path = paths[pick % len(paths)]
        try:
            if what == "walk":
                list(vfs.walk(path))
            elif what == "walkall":
                list(vfs.walk("/"))
            elif what == "files":
                list(vfs.iter_files(path))
            elif what == "search":
                vfs.search(SearchQuery("text"))
            elif what == "index":
                vfs.enable_full_text_index()
            elif what == "snapshot":
                vfs.snapshot()
            elif what.startswith("sh") or what == "stat":
                command = {"shls": "ls -l ", "shtree": "tree ", "shfind": "find ", "shgrep": "grep -r text ", "stat": "stat "}[what]
                shell.exec(command + path)
            else:
                call = {"ls": vfs.ls, "tree": vfs.tree, "exists": vfs.exists, "is_dir": vfs.is_dir, "read": vfs.read_file, "version": vfs.get_version,
                        "policy": vfs.get_policy}[what]
                call(path)
        except SandboxError:
            pass
        obs.ev("reads in between")
        obs.state(case["depth"], case["at"], what, path, sorted(known))
        look()
        if pick % 3 == 0:
            time.sleep(0.001)
        for inner in sorted(paths, key=lambda p: p.count("/")):
            parent = str(PurePosixPath(inner).parent)
            if parent in known or inner == case["at"]:
                note(inner)
                break_here = pick % 2
                if break_here:
                    break
        look()


def families():
    return [Family("lazy", 1500, 8000, gen_lazy, run_lazy), Family("times", 3000, 20000, gen_times, run)]
