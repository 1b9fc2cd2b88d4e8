"""C08: a restricted shell sees everything its view allows."""

import fnmatch

from ..core import Family, Violation
from ..world import EVERYBODY, below, build, gen_tree, gen_view, is_hidden, make_view, q, state_of

from sandfs import SandboxShell, SearchQuery

RULE = ("A case builds a labelled tree and asks a restricted shell for listings, trees, finds, globs, greps, searches and reads of "
        "every directory and file; the expected output is computed from the stored nodes and an independent visibility rule and "
        "must match exactly (as sets where order is free); observed: distinct (view, tree, question) triples.")
ASSUMPTIONS = ["order of find, grep and search output is not judged", "'*' in a glob with a slash also matches '/' (fnmatch over whole paths)"]
REQUIRE = {"listings judged": 5000, "trees judged": 4000, "finds judged": 5000, "globs judged": 5000, "searches judged": 10000,
           "reads judged": 5000, "entries left out": 5000, "entries shown": 2500}
QUICK_TIMES = 2

POLICIES = {"none": 5, "cls": 5, "who": 3, "both": 2}


def gen_case(rng, index, tier):
    nodes = gen_tree(rng, policies=POLICIES, size=(5, 12) if tier == "quick" else (6, 18), meta=0.6)
    if rng.random() < 0.5:
        nodes.insert(0, ["/", "d", None, {}, {"tag": "red"}])
    view = gen_view(rng, nodes[1:])
    if rng.random() < 0.1:
        view = {}
    return {"nodes": nodes, "view": view, "index": rng.random() < 0.4, "cwd": rng.choice(["/"] + [n[0] for n in nodes if n[1] == "d"]),
            "words": rng.sample(["tok", "alpha", "BETA", "é", "tok1", "z", "gamma"], 2), "api": rng.random() < 0.5}


def run_case(case, obs):
    vfs = build(case["nodes"])
    if case["index"]:
        vfs.enable_full_text_index()
    view = case["view"]
    real = make_view(view)
    shell = SandboxShell(vfs, view=real)
    full = SandboxShell(vfs, view=make_view({"principals": EVERYBODY}))
    state = state_of(vfs)
    hidden = {p for p in state if is_hidden(view, state, p)}
    unlisted = {p for p in state if is_hidden(view, state, p, listing=True)}
    obs.ev("entries left out", len(unlisted))
    obs.ev("entries shown", len(state) - len(unlisted))
    vfs.cd(case["cwd"])
    cwd_hidden = case["cwd"] in hidden

    def name(path):
        return path.rsplit("/", 1)[1]

    def kids(path):
        return [p for p in state if p != "/" and (p.rsplit("/", 1)[0] or "/") == path]

    def ask(command, ok=True):
        result = shell.exec(command)
        obs.state(sorted(view.items(), key=str), case["nodes"], command)
        if (result.exit_code == 0) != ok:
            raise Violation(f"view {view}: {command!r} exited {result.exit_code} ({result.stderr!r}), expected "
                            f"{'success' if ok else 'refusal'}")
        return result.stdout

    def same(command, got, want, kind):
        obs.ev(kind)
        if got != want:
            raise Violation(f"view {view}: {command!r} gave {got!r}, expected {want!r}")

    def rows(text):
        return sorted(text.split("\n")) if text else []

    def walk_listed(path):
        if path in unlisted:
            return []
        found = [path]
        for child in kids(path):
            found += walk_listed(child)
        return found

    def draw(path, prefix=""):
        shown = sorted((p for p in kids(path) if p not in unlisted), key=lambda p: (state[p][0] != "d", name(p)))
        lines = []
        for number, child in enumerate(shown):
            last = number == len(shown) - 1
            mark = "└──" if last else "├──"
            if state[child][0] == "d":
                lines.append(f"{prefix}{mark} {name(child)}/")
                lines += draw(child, prefix + ("    " if last else "│   "))
            else:
                lines.append(f"{prefix}{mark} {name(child)}")
        return lines

    def matches(word, top, *, recursive=True, ignore_case=False):
        found = []
        for path, row in state.items():
            if row[0] != "f" or path in hidden or not below(path, top):
                continue
            if not recursive and path != top and (path.rsplit("/", 1)[0] or "/") != top:
                continue
            for number, line in enumerate(row[1].splitlines(), 1):
                if (word.lower() in line.lower()) if ignore_case else word in line:
                    found.append((path, number, line))
        return found

    dirs = [p for p in state if state[p][0] == "d"]
    for top in dirs:
        ok = top not in hidden
        t = q(top)
        got = ask(f"ls -l {t}", ok)
        if ok:
            want = [f"{'d' if state[p][0] == 'd' else '-'} {p}" for p in kids(top) if p not in unlisted]
            same(f"ls -l {top}", rows(got), sorted(want), "listings judged")
            want = sorted((p for p in kids(top) if p not in unlisted), key=lambda p: (state[p][0] != "d", name(p)))
            same(f"ls {top}", ask(f"ls {t}"), "  ".join(name(p) + ("/" if state[p][0] == "d" else "") for p in want), "listings judged")
            same(f"tree {top}", ask(f"tree {t}"), "\n".join([top] + draw(top)), "trees judged")
            found = walk_listed(top)
            same(f"find {top}", rows(ask(f"find {t}")), sorted(found), "finds judged")
            same(f"find {top} -type f", rows(ask(f"find {t} -type f")), sorted(p for p in found if state[p][0] == "f"), "finds judged")
            same(f"find {top} -type d", rows(ask(f"find {t} -type d")), sorted(p for p in found if state[p][0] == "d"), "finds judged")
            if found:
                wanted = name(found[-1]) if found[-1] != "/" else "nope"
                same(f"find {top} -name {wanted}", rows(ask(f"find {t} -name {q(wanted)}")),
                     sorted(p for p in found if name(p) == wanted), "finds judged")
        else:
            for command in (f"tree {t}", f"find {t}", f"ls {t}"):
                ask(command, False)
        if case["api"]:
            want = sorted(p for p in kids(top) if p not in unlisted)
            same(f"vfs.ls {top}", sorted(str(e.path) for e in vfs.ls(top, view=real)), want, "listings judged")
            same(f"vfs.tree {top}", vfs.tree(top, view=real), "\n".join([top] + draw(top)), "trees judged")
        for word in case["words"]:
            w = q(word)
            for flag in (False, True):
                i = "-i " if flag else ""
                deep = matches(word, top, ignore_case=flag)
                flat = matches(word, top, recursive=False, ignore_case=flag)
                same(f"vfs.search {word} {top}", sorted((str(r.path), r.line_no, r.line_text) for r in vfs.search(
                    SearchQuery(word, ignore_case=flag, path_prefix=None if top == "/" else vfs.get_node(top).path()), view=real)),
                    sorted(deep), "searches judged")
                for command, want in ((f"search {i}{w} {t}", [f"{p}:{n}:{line}" for p, n, line in deep]),
                                      (f"rg -n {i}{w} {t}", [f"{p}:{n}:{line}" for p, n, line in deep]),
                                      (f"grep -r {i}{w} {t}", [f"{p}:{line}" for p, n, line in deep]),
                                      (f"grep {i}{w} {t}", [f"{p}:{line}" for p, n, line in flat])):
                    got = ask(command, ok)
                    if ok:
                        same(command, rows(got), sorted(want), "searches judged")
    # -- globs -----------------------------------------------------------------
    for pattern in ("*", "n*", "*.txt", "n1*", "?[0-9]q*", "*q"):
        want = [p for p in kids(case["cwd"]) if p not in unlisted and fnmatch.fnmatchcase(name(p), pattern)]
        got = ask(f"echo -n {pattern}")
        if want:
            same(f"echo {pattern} in {case['cwd']}", sorted((" " + got).split(" /")[1:]), sorted(p[1:] for p in want), "globs judged")
        else:
            same(f"echo {pattern} in {case['cwd']}", got, pattern, "globs judged")
        same(f"glob {pattern}", sorted(vfs.glob(pattern, view=real)), sorted(want), "globs judged")
    for pattern in ("/*", "/n*", "/*.md", "/n0q*/*", "/*/*.txt"):
        want = [p for p in state if p not in unlisted and fnmatch.fnmatchcase(p, pattern)]
        same(f"glob {pattern}", sorted(vfs.glob(pattern, view=real)), sorted(want), "globs judged")
        got = ask(f"echo -n {pattern}")
        if want:
            same(f"echo {pattern}", got, " ".join(sorted(want)), "globs judged")
        else:
            same(f"echo {pattern}", got, pattern, "globs judged")
    # -- reads of one file --------------------------------------------------------
    for path, row in state.items():
        if row[0] != "f":
            continue
        for command in (f"cat {q(path)}", f"cat < {q(path)}", f"wc {q(path)}", f"head -n 2 {q(path)}", f"tail -n 1 {q(path)}",
                        f"stat {q(path)}", f"grep tok {q(path)}", f"ls -l {q(path)}"):
            got = ask(command, path not in hidden)
            if path not in hidden:
                other = full.exec(command)
                if other.exit_code != 0:
                    raise Violation(f"an unrestricted shell was refused {command!r}: {other.stderr}")
                same(command, got, other.stdout, "reads judged")
                if command.startswith("cat"):
                    same(command, got, row[1], "reads judged")
    # -- the listing without arguments -------------------------------------------------
    if not cwd_hidden:
        shown = [p for p in kids(case["cwd"]) if p not in unlisted]
        same("ls -l", rows(ask("ls -l")), sorted(f"{'d' if state[p][0] == 'd' else '-'} {p}" for p in shown), "listings judged")
        same("find", rows(ask("find")), sorted(walk_listed(case["cwd"])), "finds judged")
        same("search", rows(ask("search tok")), sorted(f"{p}:{n}:{line}" for p, n, line in matches("tok", case["cwd"])), "searches judged")


def families():
    return [Family("views", 1000, 7000, gen_case, run_case)]
