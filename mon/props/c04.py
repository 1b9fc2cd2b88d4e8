"""C04: versions count writes and guard expected-version writes."""

from ..core import Family
from ..gen import Gen, sizes
from .simcommon import run_history

RULE = ("A case interleaves several optimistic writers (each remembering the version it last read) with plain writes, appends, "
        "copies, moves, removals, touches and shell redirections over one to four files; after every step every file's "
        "version is compared with the reference count; observed: distinct tree states (with versions) compared.")
ASSUMPTIONS = ["storage mounts are judged by C10 and C11"]
REQUIRE = {"bulk operations judged": 50, "write ok": 3000, "write refused": 800, "guarded writes accepted": 500, "guarded writes refused": 300}
QUICK_TIMES = 6


def gen_writers(rng, index, tier):
    g = Gen(rng, fancy=0.15, big=False, expected=0.3, miss=0.05, via=(5, 1, 3),
            weights={"write": 10, "append": 6, "touch": 2, "mv": 2, "cp": 3, "cpr": 1, "rm": 1, "reads": 3, "shreads": 2,
                     "policy": 0.5, "mkdir": 1, "mountf": 0.4, "index": 0.2, "snap": 0.2, "hook": 0.3})
    g.names = g.names[: rng.randint(1, 4)]
    g.maxdepth = 2
    clients = [{} for _ in range(rng.randint(1, 4))]
    total = rng.choice([12, 25, 45]) if tier == "quick" else rng.choice([20, 60, 150])
    names = list(g.weights)
    while len(g.ops) < total:
        roll = rng.random()
        client = rng.choice(clients)
        if roll < 0.18:
            parts = g.target("f")
            node = g.model.find(parts)
            client[parts] = node.version if node is not None and node.kind == "f" else 0
        elif roll < 0.4 and client:
            parts = rng.choice(sorted(client))
            node = g.model.find(parts)
            current = node.version if node is not None and node.kind == "f" else 0
            want = client[parts]
            g.add(["write", g.sp(parts), g.body(), rng.choice([False, False, True, "append_file"]), want, "api"])
            if want == current:
                client[parts] = want + 1
        else:
            g.add(g.make(rng.choices(names, list(g.weights.values()))[0]))
    return {"ops": g.ops}


def gen_long(rng, index, tier):
    """One file written many times, with stale and exact guards."""
    ops = []
    path = "/" + rng.choice(["f", "d/f", "é/日本"])
    for number in range(rng.choice([12, 40, 120])):
        roll = rng.random()
        append = rng.random() < 0.4
        want = None
        if roll < 0.35:
            want = "cur"
        elif roll < 0.55:
            want = rng.choice(["stale", "ahead", 0, 1, 9, 10, 11, -1])
        ops.append(["write", path, f"{number}", append, want, "api"])
        if rng.random() < 0.1:
            ops.append(["mv", path, path + "x", "api"])
            path += "x"
        if rng.random() < 0.1:
            ops.append(["cp", path, path, False, "api"])
        if rng.random() < 0.05:
            ops.append(["touch", path, "api"])
    return {"ops": ops}


def run(case, obs):
    sim = run_history(case, obs)
    del sim
    for op in case["ops"]:
        if op[0] == "write" and op[4] is not None:
            obs.ev("guarded writes")


def run_counted(case, obs):
    from ..sim import Sim

    sim = Sim(obs)
    try:
        for op in case["ops"]:
            guarded = op[0] == "write" and op[4] is not None
            outcome = sim.step(op)
            if guarded:
                obs.ev("guarded writes accepted" if outcome == "ok" else "guarded writes refused")
        sim.final()
    finally:
        sim.close()


# -- large trees, texts and counts --------------------------------------------------------------------
def gen_sizes(rng, index, tier):
    return {"ops": sizes(rng, expected=0.5, start=["store", "mount"] if rng.random() < 0.3 else ()).ops}


def families():
    return [
        Family("writers", 1500, 18000, gen_writers, run_counted),
        Family("sizes", 50, 800, gen_sizes, run_counted),
        Family("long", 250, 2500, gen_long, run_counted),
    ]
