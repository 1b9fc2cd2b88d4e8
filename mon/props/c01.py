"""C01: the tree is exactly what the operations asked for."""

from ..core import Family
from ..gen import Gen, sizes
from .simcommon import run_history

RULE = ("A case is a history of write/append/touch/mkdir/remove/move/copy/cd operations over a small pool of colliding "
        "names, judged step by step against the reference map; observed: distinct full tree states compared after a step.")
ASSUMPTIONS = ["single-threaded use", "names without line separators or glob/variable characters when sent through the shell"]
REQUIRE = {"bulk operations judged": 50, "mv ok": 200, "cp ok": 200, "rm ok": 200, "mv refused": 100, "cp refused": 100, "read probes": 2000}
QUICK_TIMES = 2


def gen_mixed(rng, index, tier):
    weights = dict(Gen.DEFAULT)
    weights.update({"meta": 1, "policy": 0.6})
    if rng.random() < 0.3:
        weights["mountf"] = 2
    g = Gen(rng, weights=weights, fancy=0.25, polprob={"none": 3, "cls": 3, "ro": 1, "ao": 1})
    return {"ops": g.run(rng.choice([8, 15, 30]) if tier == "quick" else rng.choice([10, 30, 80]))}


def gen_movecopy(rng, index, tier):
    """Build a populated tree, then mostly move and copy it about."""
    g = Gen(rng, weights={"write": 5, "mkdir": 3, "meta": 1}, names=None, fancy=0.1, miss=0.05, expected=0)
    g.names = rng.sample(g.names, min(len(g.names), rng.randint(2, 4)))
    g.run(rng.randint(5, 14))
    g.weights = {"mv": 8, "cp": 3, "cpr": 6, "rm": 1, "rmr": 2, "write": 2, "append": 1, "cd": 2, "touch": 1, "mkdir": 1}
    g.miss = 0.15
    return {"ops": g.run(len(g.ops) + rng.randint(6, 20))}


def gen_wide(rng, index, tier):
    """Directories with many entries and deep chains."""
    g = Gen(rng, weights=dict(Gen.DEFAULT), fancy=0.2, big=False)
    top = "/" + g.names[0]
    width = rng.choice([11, 33, 70])
    for number in range(width):
        kind = number % 7
        if kind == 3:
            g.add(["mkdir", f"{top}/d{number}", True, True, "api"])
        else:
            g.add(["write", f"{top}/f{number}", f"n{number}", False, None, "api"])
    deep = "/".join(rng.choice(g.names) for _ in range(rng.choice([8, 17, 30])))
    g.add(["write", f"{top}/deep/{deep}", "bottom", False, None, "api"])
    g.maxdepth = 40
    return {"ops": g.run(len(g.ops) + rng.randint(5, 15))}


def run(case, obs):
    run_history(case, obs)


# -- large trees, texts and counts --------------------------------------------------------------------
def gen_sizes(rng, index, tier):
    return {"ops": sizes(rng, huge=0.2).ops}


def families():
    return [
        Family("mixed", 1800, 24000, gen_mixed, run),
        Family("movecopy", 1500, 20000, gen_movecopy, run),
        Family("sizes", 150, 1500, gen_sizes, run),
        Family("wide", 120, 1500, gen_wide, run),
    ]
