"""C07: a restricted shell never reveals or alters hidden nodes."""

import re

from ..core import Family, Violation
from ..world import EVERYBODY, Commands, below, build, gen_tree, gen_view, is_hidden, make_view, scrambled, set_policy, state_of, tokens, undated

from sandfs import SandboxShell

RULE = ("A case builds a tree with unique names and content tokens, opens several shells with random views (classifications, "
        "principals, path prefixes, metadata filters, combined) and runs generated commands in them, with labels toggled in "
        "between; which nodes are hidden is computed from the stored labels by an independent rule; every output and error is "
        "searched for hidden tokens and names, and hidden nodes are compared before and after every command; observed: distinct "
        "(view, command) pairs with something hidden.")
ASSUMPTIONS = ["a name or token that the command itself contains is not a disclosure",
               "pwd and the header line of tree show the current directory, whoever chose it"]
REQUIRE = {"outputs watched": 8000, "outputs with hidden nodes": 6000, "hidden nodes compared": 20000, "attempts on hidden nodes": 1500,
           "attempts on hidden nodes refused": 1000, "attempts among several operands": 2000, "positive controls": 300,
           "reading commands compared with an unlabelled twin": 8000,
           "answers compared with other hidden text": 8000}
QUICK_TIMES = 4

NAME = re.compile(r"[nw]\d+[qx]")
POLICIES = {"none": 4, "cls": 5, "who": 3, "both": 2, "ro": 0.5, "ur": 0.5}


def gen_history(rng, index, tier):
    nodes = gen_tree(rng, policies=POLICIES, size=(6, 13))
    views = [gen_view(rng, nodes) for _ in range(rng.randint(1, 3))]
    search = rng.choice([None, "/@search"])
    commands = Commands(rng, nodes, search=search)
    dirs = ["/"] + [n[0] for n in nodes if n[1] == "d"]
    ops = []
    for _ in range(rng.randint(14, 28) if tier == "quick" else rng.randint(20, 90)):
        roll = rng.random()
        if roll < 0.85:
            ops.append(["exec", rng.randrange(3), commands.one()])
        elif roll < 0.93:
            pol = rng.choice([{}, {"classification": "secret"}, {"classification": "private"}, {"principals": [rng.choice(["ann", "bob"])]}])
            ops.append(["policy", rng.choice(nodes)[0], pol])
        else:
            ops.append(["cd", rng.choice(dirs)])
    return {"nodes": nodes, "views": views, "search": search, "index": rng.random() < 0.4, "ops": ops}


def start(case):
    vfs = build(case["nodes"])
    if case["index"]:
        vfs.enable_full_text_index()
    if case["search"]:
        vfs.enable_search_view(case["search"])
    return vfs


def run_history(case, obs):
    vfs = start(case)
    shells = [SandboxShell(vfs, view=make_view(view)) for view in case["views"]]
    for op in case["ops"]:
        if op[0] == "policy":
            if vfs.exists(op[1]):
                set_policy(vfs, op[1], op[2])
            continue
        if op[0] == "cd":
            if vfs.is_dir(op[1]) and vfs.get_policy(op[1]).readable:
                vfs.cd(op[1])
            continue
        number = op[1] % len(shells)
        judge(vfs, shells[number], case["views"][number], op[2], obs)


def judge(vfs, shell, view, command, obs):
    before = state_of(vfs)
    hidden = {p for p in before if is_hidden(view, before, p)}
    secret, free = set(), set()
    names_hidden, names_free = set(), set()
    for path, row in before.items():
        (secret if path in hidden else free).update(tokens(row[1]))
        (names_hidden if path in hidden else names_free).update(NAME.findall(path.rsplit("/", 1)[1]))
        if path not in hidden:
            names_free.update(NAME.findall(row[1] or ""))  # a name written into a visible file (a saved listing)
    secret -= free
    names_hidden -= names_free
    # What the command itself mentions (also through variables) is not a disclosure.
    said = command + " ".join(shell.env.values())
    # A hidden file's name is also the name of its place in the tree: the current directory may be shown.
    names_hidden -= set(NAME.findall(said)) | set(NAME.findall(vfs.pwd()))
    result = shell.exec(command)
    output = result.stdout + "\n" + result.stderr
    obs.ev("outputs watched")
    if hidden:
        obs.ev("outputs with hidden nodes")
        obs.state(sorted(view.items()), command, len(hidden))
    leaked = (tokens(output) - tokens(said)) & secret
    if leaked:
        raise Violation(f"view {view}: {command!r} printed hidden content {sorted(leaked)}: {output!r}")
    listed = set(NAME.findall(output)) & names_hidden
    if listed:
        raise Violation(f"view {view}: {command!r} printed hidden names {sorted(listed)}: {output!r}")
    after = state_of(vfs)
    for path in hidden:
        obs.ev("hidden nodes compared")
        if after.get(path) != before[path]:
            raise Violation(f"view {view}: {command!r} changed hidden {path}: {before[path]} became {after.get(path)}")
    dirs = [p for p in hidden if before[p][0] == "d"]
    for path in after:
        if path not in before and any(below(path, d) for d in dirs):
            raise Violation(f"view {view}: {command!r} created {path} inside a hidden directory")
    if after != before:
        gained = set()
        for path, row in after.items():
            if row[0] == "f" and path not in hidden:
                gained |= tokens(row[1])
        if gained & secret - tokens(said):
            raise Violation(f"view {view}: {command!r} copied hidden content to a visible file: {sorted(gained & secret)}")
    return result


# -- aiming at one hidden node -------------------------------------------------------
def gen_aim(rng, index, tier):
    nodes = gen_tree(rng, policies=POLICIES, size=(5, 11))
    return {"nodes": nodes, "view": gen_view(rng, nodes), "search": "/@search", "index": rng.random() < 0.4,
            "pick": rng.random(), "cwd": rng.choice(["/"] + [n[0] for n in nodes if n[1] == "d"])}


def run_aim(case, obs):
    from ..world import q

    vfs = start(case)
    view = case["view"]
    shell = SandboxShell(vfs, view=make_view(view))
    state = state_of(vfs)
    hidden = sorted(p for p in state if is_hidden(view, state, p) and p != "/@search" and p != "/")
    if not hidden:
        obs.ev("no hidden node in this case")
        return
    if vfs.get_policy(case["cwd"]).readable:
        vfs.cd(case["cwd"])
    target = hidden[int(case["pick"] * len(hidden))]
    t = q(target)
    rel = q("." + "/.." * 6 + target)
    spot = q(target + "/w1x")
    if state[target][0] == "f":
        commands = [
            f"cat {t}", f"cat {rel}", f"cat < {t}", f"head {t}", f"tail -n 3 {t}", f"wc {t}", f"grep tok {t}", f"rg tok {t}", f"search tok {t}",
            f"ls {t}", f"ls -l {t}", f"find {t}", f"stat {t}", f"cat {t} > /w9x", f"cp {t} /w8x", f"mv {t} /w7x", f"rm {t}", f"touch {t}",
            f"write {t} x", f"append {t} x", f"echo x > {t}", f"echo x >> {t}", f"rm -r {t}", f"cat {t} | cat", f"F={t} cat $F",
            f"grep -r tok {rel}", f"write {t} --append --text y",
        ]
    else:
        commands = [
            f"ls {t}", f"ls -l {rel}", f"tree {t}", f"find {t}", f"grep -r tok {t}", f"rg tok {t}", f"search tok {t}", f"cd {t}", f"stat {t}",
            f"rm -r {t}", f"mv {t} /w7x", f"cp -r {t} /w8x", f"mkdir {spot}", f"touch {spot}", f"echo x > {spot}", f"write {spot} x",
            f"mkdir -p {spot}/w2x", f"append {spot} x", f"rm -rf {rel}",
        ]
        children = [p for p in state if p.startswith(target + "/")]
        for child in children[:3]:
            commands += [f"cat {q(child)}", f"cp -r {q(child)} /w6x", f"rm -r {q(child)}", f"mv {q(child)} /w5x"]
    donors = [p for p in state if p not in hidden and state[p][0] == "f" and p != "/@search"]
    if donors:
        d = q(donors[0])
        commands += [f"cp {d} {t}", f"mv {d} {t}" if state[target][0] == "f" else f"cp {d} {spot}"]
    # A sandbox that differs only in what the hidden files hold.
    other = start({**case, "nodes": [[n[0], n[1], scrambled(n[2], " longer") if n[1] == "f" and n[0] in hidden else n[2], *n[3:]] for n in case["nodes"]]})
    other.cd(vfs.pwd())
    blind = SandboxShell(other, view=make_view(view))

    def compare(command, result):
        again = blind.exec(command)
        left, right = [(r.exit_code, undated(r.stdout), undated(r.stderr)) for r in (result, again)]
        obs.ev("answers compared with other hidden text")
        if left != right and not ("stat" in command and (">" in command or "|" in command)):
            raise Violation(f"view {view}: {command!r} gave {left!r}; with other text in the hidden files {hidden} it gives {right!r}")

    for command in mixed(vfs, target, donors, case["pick"]):
        obs.ev("attempts among several operands")
        compare(command, judge(vfs, shell, view, command, obs))
    for command in commands:
        obs.ev("attempts on hidden nodes")
        result = judge(vfs, shell, view, command, obs)
        compare(command, result)
        if result.exit_code == 0:
            raise Violation(f"view {view}: {command!r} on hidden {target} succeeded: {result.stdout!r}")
        obs.ev("attempts on hidden nodes refused")
    for parent in {p for p in state if target.startswith(p.rstrip("/") + "/") and p not in hidden}:
        for command in (f"rm -r {q(parent)}", f"mv {q(parent)} /w4x", f"cp -r {q(parent)} /w3x", f"grep -r tok {q(parent)}", f"ls {q(parent)}",
                        f"find {q(parent)}", f"tree {q(parent)}", f"search tok {q(parent)}", f"find {q('/@search?q=tok')}",
                        f"cat {q('/@search?q=tok' + target)}", f"grep tok {q('/@search?q=tok' + target)}", "echo /*", "echo /*/*", "echo *"):
            compare(command, judge(vfs, shell, view, command, obs))
    full = SandboxShell(vfs, view=make_view({"principals": EVERYBODY}))
    name = target.rsplit("/", 1)[1]
    if all(row[2][0] for row in state.values()):
        vfs.cd("/")
        if name not in full.exec("find /").stdout:
            raise Violation(f"a shell with every principal does not list {target}")
        obs.ev("positive controls")


def mixed(vfs, target, donors, pick):
    """Commands that name the hidden node, in several spellings, before, after or between visible ones."""
    import posixpath
    import random

    from ..world import q

    rng = random.Random(pick)
    rel = posixpath.relpath(target, vfs.pwd())
    top, _, name = target.rpartition("/")
    spellings = [target, rel, "./" + rel, "././" + rel, top + "/./" + name, top + "//" + name, "/." + target, "/.." + target, top + "/w0x/../" + name,
                 "../" * 5 + target[1:]]
    out = []
    for _ in range(10):
        t = q(rng.choice(spellings))
        others = [q(rng.choice(donors)) for _ in range(rng.randint(1, 2))] if donors else ["/"]
        words = others + [t]
        if rng.random() < 0.3:
            rng.shuffle(words)
        verb = rng.choice(["cat", "head", "head -n 2", "tail -n 2", "wc", "wc -l", "grep tok", "grep -n tok", "grep -r tok", "rg tok", "search tok", "ls", "ls -l", "stat",
                           "tree", "find", "touch", "rm -f", "rm -rf", "mkdir -p", "cp", "cp -r", "mv"])
        out.append(f"{verb} {' '.join(words)}" + rng.choice(["", "", "", " | cat", " > /w2x"]))
    return out


# -- readers cannot tell hidden nodes from absent ones ------------------------------------
def gen_same(rng, index, tier):
    nodes = gen_tree(rng, policies={"none": 5, "cls": 4, "who": 3, "both": 1}, size=(6, 13), twins=0.15)
    view = gen_view(rng, nodes)
    return {"nodes": nodes, "view": view, "search": rng.choice([None, "/@search"]), "index": rng.random() < 0.4, "seed": rng.randrange(1 << 30),
            "count": 20 if tier == "quick" else 50}


def run_same(case, obs):
    """Reading commands that name only visible nodes give the same answer on a tree from which the hidden nodes are removed."""
    import random

    from ..world import q

    rng = random.Random(case["seed"])
    view = case["view"]
    vfs = start(case)
    state = state_of(vfs)
    hidden = {p for p in state if is_hidden(view, state, p)}
    if not hidden or "/" in hidden:
        obs.ev("no hidden node in this case")
        return
    if case["search"]:
        hidden.discard(case["search"])
    other = start({**case, "nodes": [n for n in case["nodes"] if n[0] not in hidden]})
    shells = [SandboxShell(v, view=make_view(view)) for v in (vfs, other)]
    shown = [n for n in case["nodes"] if n[0] not in hidden]
    pick = lambda kind=None: q(rng.choice([n[0] for n in shown if kind in (None, n[1])] + ["/"] * (kind != "f") or ["/nothing"]))  # noqa: E731
    dirs = ["/"] + [n[0] for n in shown if n[1] == "d"]
    for _ in range(case["count"]):
        word = q(rng.choice(["tok", "alpha", "z", "Beta", "é", "todo", f"tok{rng.randrange(14) * 10}z"]))
        flags = "".join(rng.choice(["", "", f" {f}"]) for f in ("-i", "-n", "-e"))
        glob = rng.choice(["*", "/*", "*q*", "/*/*", "n*", "./*", "?*q*", "*.md", "*.txt", "[mn]*", rng.choice(dirs).rstrip("/").replace(" ", "?") + "/*"])
        commands = [f"ls {pick('d')}", f"ls -l {pick('d')}", f"ls -l {pick()}", f"ls {pick('d')} {pick('d')}", "ls", "ls -l", f"ls -l {glob}", f"ls {glob}", f"tree {pick('d')}", "tree",
                    f"find {pick('d')}", f"find {pick('d')} -type f", f"find {pick('d')} -type d", "find -name n1q", "find / -name n2q.txt", f"echo {glob}", f"cat {glob}",
                    f"wc {glob}", f"wc -l {pick('f')} {glob}", f"head -n 1 {glob}", f"tail -n 1 {glob}", f"grep{flags} {word} {glob}", f"grep -r{flags} {word} {pick('d')}",
                    f"grep -r{flags} {word}", f"rg{flags} {word} {pick('d')}", f"rg {word}", f"search{flags} {word} {pick('d')}", f"search {word}", f"cat {pick('f')}",
                    f"find {pick('d')} | wc", f"grep -r {word} {pick('d')} | wc -l", f"ls {pick('d')} | wc -c", f"ls -l {pick('d')} > /w1x", "cat /w1x", f"find / > {q(rng.choice(dirs).rstrip('/') + '/w2x')}"]
        if case["search"]:
            base = f"{case['search']}?q={rng.choice(['tok', 'alpha', 'z', 'o'])}"
            commands += [f"ls {q(base)}", f"ls -l {q(base)}", f"find {q(base)}", f"tree {q(base)}", f"find {q(base)} -type d", f"ls {q(base + rng.choice(dirs).rstrip('/'))}",
                         f"grep -r {word} {q(base)}", f"find {q(base)} | wc -l", "ls /@search"]
        command = rng.choice(commands)
        cwd = rng.choice(dirs)
        results = []
        for which, shell in zip((vfs, other), shells):
            which.cd(cwd)
            result = shell.exec(command)
            results.append((result.exit_code, result.stdout, result.stderr))
        obs.ev("reading commands compared with an unlabelled twin")
        if not same(*results):
            raise Violation(f"view {view}: {command!r} in {cwd} gave {results[0]!r}; with the hidden nodes {sorted(hidden)} removed it gives {results[1]!r}")
        obs.state("same", sorted(view.items()), command, cwd, len(hidden))


def same(left, right):
    """Equal up to the order of lines."""
    return left == right or (left[0] == right[0] and sorted(left[1].splitlines()) == sorted(right[1].splitlines()) and bool(left[2]) == bool(right[2]))


def families():
    return [Family("history", 850, 12000, gen_history, run_history), Family("aim", 700, 7000, gen_aim, run_aim), Family("same", 500, 6000, gen_same, run_same)]
