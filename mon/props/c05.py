"""C05: read-only and append-only nodes are never altered."""

from ..core import Family, Violation
from ..gen import Gen, sizes
from ..sim import Sim, _short, q

RULE = ("A case assigns read-only and append-only policies over a populated tree and drives direct and recursive operations "
        "through the API and the shell at and around the protected nodes; protected content and listings are compared after "
        "every step (reference model plus an independent per-node guard); observed: distinct tree states compared.")
ASSUMPTIONS = ["policies are not changed between an operation and its judgement"]
REQUIRE = {"bulk operations judged": 50, "policy ok": 1500, "write refused": 800, "rm refused": 300, "mv refused": 300, "rm partly": 40,
           "guarded nodes checked": 10000}
QUICK_TIMES = 1.5


def gen_policies(rng, index, tier):
    g = Gen(rng, fancy=0.2, big=False, miss=0.1, via=(4, 1, 4), expected=0.05,
            weights={"write": 6, "mkdir": 4, "touch": 1},
            polprob={"ro": 5, "ao": 4, "none": 2, "all": 1, "rw-ao": 1, "ur": 1})
    g.names = g.names[: rng.randint(3, 6)]
    g.run(rng.randint(4, 12))
    for _ in range(rng.randint(1, 5)):
        g.add(g.make("policy"))
    g.weights = {"write": 8, "append": 6, "touch": 3, "mkdir": 4, "rm": 5, "rmr": 5, "mv": 8, "cp": 7, "cpr": 4, "cd": 1,
                 "policy": 4, "reads": 2, "multi": 3, "python": 1}
    if rng.random() < 0.15:
        g.weights["mountf"] = 1
    target = len(g.ops) + (rng.randint(8, 25) if tier == "quick" else rng.randint(10, 60))
    names = list(g.weights)
    while len(g.ops) < target:
        what = rng.choices(names, list(g.weights.values()))[0]
        if what == "multi":
            cmd = rng.choice(["touch", "rm", "rm -r", "mkdir -p"])
            paths = [g.sp(g.target("any")) for _ in range(rng.randint(2, 3))]
            subs = []
            for path in paths:
                subs.append({"touch": ["touch", path, "shell"], "rm": ["rm", path, False, "shell"],
                             "rm -r": ["rm", path, True, "shell"], "mkdir -p": ["mkdir", path, True, True, "shell"]}[cmd])
            g.add(["script", subs])
        elif what == "python":
            g.add(["write", g.sp(g.target("f")), "py", rng.random() < 0.4, None, "python"])
        else:
            g.add(g.make(what))
    return {"ops": g.ops}


def gen_dense(rng, index, tier):
    """A small full tree, one to three protected nodes, then single operations between all kinds of neighbours."""
    ops = [["mkdir", p, True, True, "api"] for p in ("/d/sub/in", "/d/e", "/o/sub")]
    ops += [["write", p, f"text {p}\n", False, None, "api"] for p in ("/d/f", "/d/sub/g", "/d/sub/in/h", "/o/f", "/o/sub/g", "/t")]
    spots = ["/d", "/d/sub", "/d/sub/in", "/d/e", "/d/f", "/d/sub/g", "/d/sub/in/h", "/o", "/o/sub", "/o/f", "/o/sub/g", "/t"]
    fresh = ["/n", "/d/n", "/d/sub/n", "/d/e/n", "/o/n", "/d/n/n", "/d/e/f", "/d/sub/f", "/o/sub/n/n", "/d/f/n"]
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops.append(["policy", rng.choice(["/", *spots]), rng.choice([{"writable": False}, {"writable": False}, {"append_only": True}])])
    for _ in range(rng.randint(3, 9)):
        what = rng.choice(["mv", "mv", "mv", "cp", "cp", "write", "rm", "touch", "mkdir"])
        via = rng.choice(["api", "api", "shell"])
        a, b = rng.choice(spots), rng.choice(spots + fresh)
        if what == "mv":
            ops.append(["mv", a, b, via])
        elif what == "cp":
            ops.append(["cp", a, b, rng.random() < 0.7, via])
        elif what == "write":
            ops.append(["write", b, "new text", rng.choice([False, True, "append_file"]), None, via])
        elif what == "rm":
            ops.append(["rm", a, rng.random() < 0.5, via])
        elif what == "touch":
            ops.append(["touch", b, via])
        else:
            parents = rng.random() < 0.6
            ops.append(["mkdir", b, parents, parents, via])
    return {"ops": ops}


class GuardSim(Sim):
    """Adds a guard that does not depend on the reference model's decisions."""

    def protected(self):
        table = {}
        for path, state in self.before.items():
            _, writable, append_only = state[2][:3]
            if writable and not append_only:
                continue
            names = None
            if state[0] == "d":
                prefix = path.rstrip("/") + "/"
                names = {p[len(prefix):] for p in self.before if p.startswith(prefix) and "/" not in p[len(prefix):] and p != path}
            table[path] = (state[0], state[1], writable, append_only, names)
        return table

    def step(self, op):
        table = self.protected()
        if op[0] == "write" and op[-1] == "python":
            code = f"fs.write_file({op[1]!r}, {op[2]!r}, append={bool(op[3])!r})"
            saved = self.command
            self.command = lambda _op: f"python -c {q(code)}"
            try:
                outcome = super().step([*op[:5], "shell"])
            finally:
                self.command = saved
        else:
            outcome = super().step(op)
        if op[0] not in ("policy", "polmut", "mountf"):
            self.guard(op, table)
        return outcome

    def guard(self, op, table):
        for path, (kind, text, writable, append_only, names) in table.items():
            self.obs.ev("guarded nodes checked")
            spot = path
            now = self.before.get(spot)
            if now is None and op[0] in ("mv", "script"):
                # A writable ancestor may have been moved as a whole: look for it elsewhere, unchanged.
                found = [p for p, s in self.before.items()
                         if p.rsplit("/", 1)[1] == path.rsplit("/", 1)[1] and s[0] == kind and s[1] == text
                         and s[2][1:3] == (writable, append_only)]
                if not found:
                    raise Violation(f"protected {path} vanished in {_short(op)}")
                continue
            if now is None or now[0] != kind:
                raise Violation(f"protected {path} was removed or replaced by {_short(op)}")
            if kind == "f":
                if not writable and now[1] != text:
                    raise Violation(f"read-only {path} changed from {_short(text)} to {_short(now[1])} in {_short(op)}")
                if writable and append_only and text is not None and not (now[1] or "").startswith(text):
                    raise Violation(f"append-only {path} changed from {_short(text)} to {_short(now[1])} in {_short(op)}")
            elif not writable:
                prefix = path.rstrip("/") + "/"
                current = {p[len(prefix):] for p in self.before if p.startswith(prefix) and "/" not in p[len(prefix):] and p != path}
                if current != names:
                    raise Violation(f"entries of read-only {path} changed from {sorted(names)} to {sorted(current)} in {_short(op)}")


def run(case, obs):
    sim = GuardSim(obs)
    try:
        for op in case["ops"]:
            sim.step(op)
        sim.final()
    finally:
        sim.close()


# -- large trees, texts and counts --------------------------------------------------------------------
def gen_sizes(rng, index, tier):
    g = sizes(rng, steps=(1, 3), via=(4, 1, 3))
    for _ in range(rng.randint(3, 8)):
        g.add(g.make("policy"))
    g.run(len(g.ops) + rng.randint(4, 8))
    return {"ops": g.ops}


def families():
    return [Family("policies", 3000, 30000, gen_policies, run), Family("sizes", 100, 1000, gen_sizes, run), Family("dense", 5000, 60000, gen_dense, run)]
