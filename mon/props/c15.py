"""C15: the search view shows the query's results and keeps nothing."""

import re
from urllib.parse import quote, quote_plus

from ..core import Family, Violation
from ..world import Commands, below, build, gen_tree, is_hidden, make_view, q, set_policy, state_of

from sandfs import SandboxShell
from sandfs.exceptions import SandboxError

RULE = ("A case builds a labelled tree with a search view and interleaves queries of several shells with different views (text, "
        "regex, case, prefix; find, ls, tree, cat, head, wc, grep, redirection, cd), ordinary commands, changes and attempts to "
        "write below the view; expected trees and lines are computed from the stored contents; after every step nothing may be "
        "left below the view's prefix and queries may not have changed anything; observed: distinct (tree, view, query) triples.")
ASSUMPTIONS = ["views by classification (including public) and principals; result nodes carry no labels or metadata of their own",
               "a path parameter comes last and is not followed by a path inside the view"]
REQUIRE = {"views enabled again": 200, "views refused": 100, "look-alike paths": 1000, "queries judged": 6000, "result files judged": 4000, "nothing left judged": 8000, "write attempts refused": 1500,
           "queries with results": 2500, "queries hiding something": 800}
QUICK_TIMES = 1.5

YES = ["1", "true", "yes", "on", "True", "TRUE", "On", "Yes", "YES", "ON"]
NO = ["0", "false", "no", "off", "False", "NO", "", "Off"]
POLICIES = {"none": 6, "cls": 4, "who": 2, "ur": 1.5}


def gen_case(rng, index, tier):
    nodes = gen_tree(rng, twins=0.25, policies=POLICIES, size=(5, 12))
    for node in nodes:
        if node[1] == "f" and rng.random() < 0.03:
            node[2] = "".join(f"alpha tok{n}z row\n" for n in range(rng.choice([130, 260, 520, 1100])))
    if rng.random() < 0.3:
        nodes += [["/n90q%41", "d", None, {}, {}], ["/n90q%41/n91q%20b", "f", "alpha tok910z\n", {}, {}], ["/n90q%41/n92q+x&y=z", "f", "tok920z alpha", {}, {}]]
    if rng.random() < 0.5:
        nodes.append(["/n93q", "f", "A tok930z\n%41 x\n%2541 y\n100% alpha\na+b\na b\nc=d\ne&f\ng?h\n#i\nj;k\nl/m\nback\\n\na%20b\nsingle ' and \" double\n", {}, {}])
    prefix = rng.choice(["/@search", "/@search", "/q/find", "/n0q-find"])
    commands = Commands(rng, nodes)
    views = []
    for _ in range(rng.randint(1, 3)):
        view = {}
        if rng.random() < 0.5:
            view["classifications"] = ["public"] + rng.sample(["private", "secret"], rng.randint(0, 1))
        if rng.random() < 0.5:
            view["principals"] = rng.sample(["ann", "bob"], rng.randint(0, 2))
        views.append(view)
    ops = []
    for _ in range(rng.randint(8, 16) if tier == "quick" else rng.randint(15, 60)):
        roll = rng.random()
        who = rng.randrange(3)
        if roll < 0.6:
            regex = rng.random() < 0.3
            word = rng.choice(["tok[12]", "^alpha", "z$", "a.*a", "(todo|beta)", ".", "é", "\\d\\dz"]) if regex else rng.choice(
                ["tok", "alpha", "TODO", "tok1", "é", "a t", "zz-none", "gamma alpha tok", "z ", "BETA", "+", "&",
                 "%41", "%2541", "100%", "a+b", "c=d", "e&f", "g?h", "#i", "j;k", "l/m", "\\n", "a%20b", "'", '"'])
            top = None
            if rng.random() < 0.35:
                top = rng.choice([n[0] for n in nodes] + ["/nope", "/"])
            ops.append(["query", who, word, regex, rng.random() < 0.35, top, spelling(rng, top)])
        elif roll < 0.75:
            ops.append(["exec", who, commands.one()])
        elif roll < 0.87:
            ops.append(["write", who, rng.randrange(16), rng.choice(["tok", "alpha", "zz-none"]), rng.choice(nodes)[0], rng.randrange(5)])
        elif roll < 0.9:
            ops.append(["enable", rng.choice(["/@search", "/q/find", "/n0q-find", "/@search2", "/q2"]), rng.random() < 0.3])
        elif roll < 0.95:
            node = rng.choice(nodes)
            ops.append(["policy", node[0], rng.choice([{}, {"classification": "secret"}, {"principals": ["ann"]}, {"readable": False}])])
        else:
            ops.append(["plain", who])
            if rng.random() < 0.5:
                ops.insert(-1, ["cd", rng.choice(["/", "/"] + [n[0] for n in nodes if n[1] == "d"] + ([prefix.rpartition("/")[0]] if prefix.count("/") > 1 else []))])
    return {"nodes": nodes, "prefix": prefix, "views": views, "index": rng.choice(["none", "before", "after"]), "ops": ops}


def spelling(rng, top):
    """How a query is written down."""
    plain = top is not None and re.fullmatch(r"[A-Za-z0-9/._-]+", top)
    return {"yes": rng.choice(YES), "no": rng.choice([None, None, rng.choice(NO)]), "plus": rng.random() < 0.3, "front": rng.random() < 0.3,
            "slash": rng.random() < 0.1, "raw": rng.random() < 0.25, "dots": rng.choice([0] * 8 + [1, 2, 3, 4, 5]), "rel": rng.random() < 0.2, "encode": not plain or rng.random() < 0.3, "bare": bool(plain) and rng.random() < 0.2}


def spelled(vfs, prefix, word, regex, ignore_case, top, how):
    start = prefix
    up, _, name = prefix.rpartition("/")
    start = [prefix, f"{up}/./{name}", f"/nowhere/..{prefix}", f"{up}//{name}", f"/..{prefix}", f"{prefix}/x/.."][how["dots"]]
    if how["rel"] and vfs.pwd() == (prefix.rpartition("/")[0] or "/"):
        start = prefix.rpartition("/")[2]
    parts = ["q=" + (quote_plus(word) if how["plus"] else quote(word, safe="?:,!~*'()[]$@^|\\. é" if how["raw"] else ""))]
    for name, on in (("regex", regex), ("ignore_case", ignore_case)):
        value = how["yes"] if on else how["no"]
        if value is not None:
            parts.insert(0 if how["front"] else len(parts), f"{name}={value}")
    if top is not None:
        parts.append("path=" + (quote(top, safe="") if how["encode"] else top.lstrip("/") if how["bare"] and top != "/" else top))
    if how["rel"] and how["dots"] and not start.startswith("/"):
        start = "./" + start
    return start + ("/" if how["slash"] else "") + "?" + "&".join(parts)


def leftovers(vfs, prefix, what, obs):
    obs.ev("nothing left judged")
    left = [str(p) for p, _ in vfs.walk(prefix) if str(p) != prefix]
    if left:
        raise Violation(f"after {what!r} the search view still holds {left}")


def run_case(case, obs):
    prefix = case["prefix"]
    vfs = build(case["nodes"])
    if case["index"] == "before":
        vfs.enable_full_text_index()
    vfs.enable_search_view(prefix)
    if case["index"] == "after":
        vfs.enable_full_text_index()
    shells = [SandboxShell(vfs, view=make_view(view)) for view in case["views"]]
    former = []
    for op in case["ops"]:
        if op[0] == "enable":
            taken = [n[0] for n in case["nodes"] if n[1] == "f"]
            if op[2] and taken and vfs.is_file(taken[-1]):
                before = state_of(vfs)
                try:
                    vfs.enable_search_view(taken[-1])
                    raise Violation(f"a search view was enabled on the file {taken[-1]}")
                except SandboxError:
                    obs.ev("views refused")
                if state_of(vfs) != before:
                    raise Violation(f"refusing a search view on {taken[-1]} changed the tree")
            elif op[1] == prefix or (op[1] in former and vfs.is_dir(op[1])) or not (vfs.exists(op[1]) or below(op[1], prefix) or below(prefix, op[1])):
                vfs.enable_search_view(op[1])
                former = [p for p in [*former, prefix] if p != op[1]]
                prefix = op[1]
                obs.ev("views enabled again")
            continue
        if op[0] == "policy":
            if vfs.exists(op[1]):
                set_policy(vfs, op[1], op[2])
            continue
        if op[0] == "cd":
            if vfs.is_dir(op[1]) and vfs.get_policy(op[1]).readable:
                vfs.cd(op[1])
            continue
        number = op[1] % len(shells)
        shell, view = shells[number], case["views"][number]
        if op[0] == "exec":
            shell.exec(op[2])
            if not vfs.is_dir(prefix):
                return  # moved away as a whole by an ordinary command
            leftovers(vfs, prefix, op[2], obs)
            continue
        before = state_of(vfs)
        if op[0] == "plain":
            for command in (f"ls {prefix}", f"find {prefix} -type f", f"grep -r tok {prefix}", f"cat {prefix}/*"):
                result = shell.exec(command)
                if result.exit_code == 0 and result.stdout.strip():
                    raise Violation(f"{command!r} without a query printed {result.stdout!r}")
            name = prefix.rpartition("/")[2]
            for base in (name, "nope" + prefix, *([] if vfs.pwd() == "/" else [vfs.pwd() + prefix])):
                if base == name and vfs.pwd() == (prefix.rpartition("/")[0] or "/"):
                    continue
                obs.ev("look-alike paths")
                for command in (f"ls {q(base + '?q=tok')}", f"find {q(base + '?q=tok')}", f"cat {q(base + '?q=tok' + case['nodes'][-1][0])}"):
                    result = shell.exec(command)
                    if result.exit_code == 0:
                        raise Violation(f"in {vfs.pwd()} {command!r} printed {result.stdout!r}; the search view is at {prefix}")
        elif op[0] == "write":
            attempt(vfs, shell, prefix, op, obs)
        else:
            query(vfs, shell, view, prefix, op, before, obs)
        after = state_of(vfs)
        if after != before:
            changed = [p for p in set(before) | set(after) if before.get(p) != after.get(p)]
            raise Violation(f"{op!r} changed the tree: {sorted(changed)}")
        leftovers(vfs, prefix, op, obs)
        for place in former:
            if vfs.is_dir(place):
                leftovers(vfs, place, op, obs)


def attempt(vfs, shell, prefix, op, obs):
    _, _, style, word, path, _ = op
    up, _, name = prefix.rpartition("/")
    base = [prefix, prefix, f"{up}/./{name}", f"/nowhere/..{prefix}", f"/..{prefix}"][op[5] % 5]
    asked = q(f"{base}?q={word}{path}")
    new = q(f"{base}?q={word}/fresh")
    bare = q(f"{prefix}{path}")
    source = q(path)
    command = [f"echo x > {asked}", f"echo x >> {asked}", f"write {asked} x", f"append {new} x", f"touch {asked}", f"mkdir {new}",
               f"mkdir -p {asked}", f"rm {asked}", f"rm -r {asked}", f"cp {source} {new}", f"mv {source} {new}", f"cp -r {asked} /copied",
               f"mv {asked} /moved", f"echo x > {bare}", f"touch {prefix}/fresh", f"mkdir -p {bare}/sub"][style]
    result = shell.exec(command)
    obs.ev("write attempts refused")
    if result.exit_code == 0:
        raise Violation(f"{command!r} on the search view succeeded")


def query(vfs, shell, view, prefix, op, state, obs):
    _, _, word, regex, ignore_case, top, how = op
    asked = spelled(vfs, prefix, word, regex, ignore_case, top, how)
    results: dict[str, list[str]] = {}
    skipped = 0
    blocked = top is not None and (top not in state or not state[top][2][0])
    for path, row in state.items():
        if row[0] != "f" or below(path, prefix) or (top is not None and not below(path, top)):
            continue
        lines = []
        for number, line in enumerate(row[1].splitlines(), 1):
            if regex:
                hit = re.search(word, line, re.IGNORECASE if ignore_case else 0) is not None
            elif ignore_case:
                hit = word.lower() in line.lower()
            else:
                hit = word in line
            if hit:
                lines.append(f"{path}:{number}:{line}")
        if lines and (is_hidden(view, state, path) or not row[2][0] or blocked):
            skipped += 1
        elif lines:
            results[path] = lines
    if top is not None and top in state and is_hidden(view, state, top):
        results = {}
    if "/" in state and not state["/"][2][0]:
        results = {}
    obs.ev("queries judged")
    obs.ev("queries with results" if results else "queries without results")
    obs.ev("queries hiding something", bool(skipped))
    obs.state(state.keys(), sorted(view.items()), word, regex, ignore_case, top)

    def ask(command, ok=True):
        result = shell.exec(command)
        if (result.exit_code == 0) != ok:
            raise Violation(f"view {view}: {command!r} exited {result.exit_code} {result.stderr!r} {result.stdout!r}")
        return result.stdout

    found = ask(f"find {q(asked)} -type f")
    want = sorted(prefix + path for path in results)
    if (sorted(found.split("\n")) if found else []) != want:
        raise Violation(f"view {view}: {asked} shows {found!r}, expected {want}")
    dirs = ask(f"find {q(asked)} -type d")
    wanted = {prefix} | {prefix + "/".join(path.split("/")[:n]) for path in results for n in range(2, len(path.split("/")))}
    if set(dirs.split("\n")) != wanted:
        raise Violation(f"view {view}: {asked} has directories {dirs!r}, expected {sorted(wanted)}")
    listing = ask(f"ls {q(asked)}")
    tops = {path.split("/")[1] + ("/" if path.count("/") > 1 else "") for path in results}
    if set(listing.split("  ") if listing else []) != tops:
        raise Violation(f"view {view}: ls {asked} printed {listing!r}, expected {sorted(tops)}")
    shown = ask(f"tree {q(asked)}")
    if len(shown.split("\n")) != len(want) + len(wanted):
        raise Violation(f"view {view}: tree {asked} printed {shown!r}")
    if top is not None:
        return
    for path, lines in list(results.items())[:4]:
        spot = q(asked + path)
        body = "\n".join(lines)
        obs.ev("result files judged")
        rows = len(body.splitlines())
        for command, expect in ((f"cat {spot}", body), (f"cat < {spot}", body), (f"head -n 1 {spot}", "".join(body.splitlines(True)[:1])),
                                (f"tail -n 1 {spot}", "".join(body.splitlines(True)[-1:])), (f"wc -l {spot} | cat", None),
                                (f"cat {spot} {spot}", body + body)):
            got = ask(command)
            if expect is None:
                if got.split(" ")[0] != str(rows):
                    raise Violation(f"{command!r} printed {got!r} for {rows} lines")
            elif got != expect:
                raise Violation(f"view {view}: {command!r} printed {got!r}, expected {expect!r}")
        got = ask(f"grep : {spot}")
        if got != "\n".join(f"{prefix}{path}:{line}" for line in body.splitlines()):
            raise Violation(f"view {view}: grep : {asked}{path} printed {got!r}, expected the lines of {body!r}")
        ask(f"stat {spot}")
    for path, row in state.items():
        if row[0] == "f" and path not in results and not below(path, prefix):
            ask(f"cat {q(asked + path)}", False)
            break


def families():
    return [Family("queries", 1100, 10000, gen_case, run_case)]
