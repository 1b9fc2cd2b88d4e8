"""C14: indexed search, scanning search and the files agree."""

from ..core import Family
from ..gen import Gen, sizes
from .simcommon import run_history

RULE = ("A case runs a history of changes (API and shell, moves of populated trees, storage mounts and syncs, restores, policy "
        "toggles) with the full-text index enabled at the start, in the middle or never, interleaved with literal and regex, "
        "case-sensitive and insensitive queries over any prefix; search() and the search/grep/rg commands are compared with "
        "line-by-line matching of the reference contents; observed: distinct tree states.")
ASSUMPTIONS = ["no content providers (an index holds the text as last indexed)", "order of results is not judged"]
REQUIRE = {"bulk operations judged": 50, "searches judged": 5000, "search matches judged": 5000, "search command outputs judged": 5000,
           "histories with index": 300, "histories without index": 150}
QUICK_TIMES = 2


def gen_search(rng, index, tier):
    g = Gen(rng, fancy=0.2, miss=0.08, via=(5, 1, 3), big=rng.random() < 0.2, expected=0.05,
            weights={"write": 8, "mkdir": 3}, polprob={"ur": 4, "none": 3, "ro": 1, "cls": 1})
    g.names = g.names[: rng.randint(3, 6)]
    if rng.random() < 0.3:  # names that begin or end alike
        g.names = rng.sample(["a", "ab", "a.txt", "a.b", "A", "a-1", "a b", "b", "ba", "a_", "aa"], rng.randint(3, 6))
    mode = rng.choice(["start", "start", "middle", "never"])
    if mode == "start":
        g.add(["index"])
    g.run(len(g.ops) + rng.randint(3, 9))
    if mode == "middle":
        g.add(["index"])
    if rng.random() < 0.3:
        g.add(g.make("store"))
        g.add(g.make("mount"))
    g.weights = {"write": 6, "append": 5, "touch": 2, "mkdir": 1, "rm": 3, "rmr": 2, "mv": 6, "cp": 4, "cpr": 3, "cd": 1,
                 "policy": 2, "snap": 0.6, "restore": 0.7, "sync": 0.8, "ext": 0.5, "script": 0.7, "mount": 0.3}
    names, values = list(g.weights), list(g.weights.values())
    for _ in range(rng.randint(6, 16) if tier == "quick" else rng.randint(10, 50)):
        g.add(g.make(rng.choices(names, values)[0]))
        for _ in range(rng.randint(1, 3)):
            g.add(g.make("search"))
        if rng.random() < 0.4:
            g.add(g.make("shsearch"))
    g.add(["search", "", False, False, "/"])
    g.add(["search", "", False, rng.random() < 0.5, None])
    g.add(["shsearch", "", False, rng.random() < 0.5, "/"])
    return {"ops": g.ops}


def run(case, obs):
    run_history(case, obs)
    obs.ev("histories with index" if ["index"] in case["ops"] else "histories without index")


# -- texts that differ little ---------------------------------------------------------------------------------------
def gen_alike(rng, index, tier):
    """Overwrites by texts of the same length, or with a long common beginning or end."""
    size = rng.choice([0, 1, 5, 63, 64, 65, 100, 130, 255, 256, 257, 1000, 1024, 4096, 5000])
    pad = rng.choice(["x", "ab ", "line\n", "é", "line\r\n"])
    fill = (pad * (size // len(pad) + 1))[:size]
    ops = [["index"]] if rng.random() < 0.8 else []
    paths = ["/f", "/d/g", "/d/F", "/d/e/g"]
    words = ["tok1z", "tok2z", "TOK1z", "tok1zz", "éok1z", "tok1z ", "", " tok1z", "tok2z\n", "tok3"]
    ops.append(["mkdir", "/d/e", True, True, "api"])
    for _ in range(rng.randint(4, 9)):
        word = rng.choice(words)
        body = rng.choice([fill + word, word + fill, fill + word + fill, fill[: size // 2] + word + fill[size // 2:]])
        ops.append(["write", rng.choice(paths), body, rng.choice([False, False, False, True]), None, "api"])
        for query in rng.sample(["tok1z", "tok2z", "TOK1z", "tok1zz", "éok1z", "tok3", "xtok", "tok1z "], 3):
            ops.append(["search", query, False, rng.random() < 0.2, rng.choice(["/", "/d", None])])
    return {"ops": ops}


# -- large trees, texts and counts --------------------------------------------------------------------
def gen_sizes(rng, index, tier):
    g = sizes(rng, start=[["index"]] * (rng.random() < 0.6) + (["store", "mount"] if rng.random() < 0.2 else []), steps=(2, 5))
    for _ in range(rng.randint(3, 6)):
        g.add(g.make("search"))
        g.add(g.make(rng.choice(["mv", "rmr", "append", "cpr", "search"])))
    for query in ("last line", "leaf", "row", "deep", "entry 1", "n1", "line"):
        g.add([rng.choice(["search", "shsearch"]), query, rng.random() < 0.3, rng.random() < 0.3, "/"])
    return {"ops": g.ops}


def families():
    return [Family("alike", 300, 3000, gen_alike, run), Family("sizes", 100, 1000, gen_sizes, run), Family("search", 1300, 15000, gen_search, run)]
