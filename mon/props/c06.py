"""C06: unreadable content is never returned."""

from ..core import Family, Violation
from ..world import Commands, build, gen_tree, q, scrambled, set_policy, state_of, tokens, undated

from sandfs import PythonExecutor, SandboxShell, SearchQuery
from sandfs.exceptions import SandboxError

RULE = ("A case builds a tree whose files hold unique tokens, makes some nodes unreadable, and runs generated commands and API "
        "reads in several shells with and without index and search view; the monitor knows from the stored contents which tokens "
        "exist only in unreadable files and looks for them in every output, error and readable file; directly naming reads must "
        "be refused, and succeed again after a toggle; in twin sandboxes that differ only in what the unreadable files hold, every command "
        "gives the same answer; observed: distinct (tree, command) pairs with a forbidden token.")
ASSUMPTIONS = ["a file is protected by its own policy; reads of a readable file below an unreadable directory are allowed",
               "the host bridge and export see everything and are outside this property"]
REQUIRE = {"outputs watched": 8000, "outputs watched with forbidden tokens": 6000, "direct reads refused": 3000,
           "direct reads allowed again": 2500, "directory commands refused": 1000, "positive controls": 3000,
           "answers compared with other unreadable text": 10000}
QUICK_TIMES = 5

POLICIES = {"ur": 5, "none": 5, "ro": 1, "ao": 1}


def base_case(rng, size=(5, 12)):
    nodes = gen_tree(rng, twins=0.25, size=size, policies=POLICIES)
    return {
        "nodes": nodes,
        # Some files take their content from a provider, with or without an earlier or later write.
        "given": {n[0]: rng.choice(["mounted", "written and mounted", "mounted and written", "written twice"])
                  for n in nodes if n[1] == "f" and rng.random() < 0.3},
        "index": rng.choice(["none", "before", "after"]),
        "view": rng.choice([None, "/@search", "/deep/q"]),
    }


def start(case):
    vfs = build([[p, k, t, {}, m] for p, k, t, _, m in case["nodes"]])
    for path, _, text, _, _ in case["nodes"]:
        how = case["given"].get(path)
        if how is None:
            continue
        if how == "mounted":
            vfs.remove(path)
        if how != "written twice":
            vfs.mount_file(path, lambda ctx, text=text: text)
        if how.endswith("written") or how.endswith("twice"):
            vfs.write_file(path, text)
    if case["index"] == "before":
        vfs.enable_full_text_index()
    for path, _, _, pol, _ in case["nodes"]:
        set_policy(vfs, path, pol)
    if case["index"] == "after":
        vfs.enable_full_text_index()
    if case["view"]:
        vfs.enable_search_view(case["view"])
    return vfs


def forbidden(state):
    """Tokens stored only in unreadable files."""
    secret, free = set(), set()
    for kind, text, policy, *_ in state.values():
        if kind == "f":
            (free if policy[0] else secret).update(tokens(text))
    return secret - free


def watch(obs, what, output, secret):
    obs.ev("outputs watched")
    if secret:
        obs.ev("outputs watched with forbidden tokens")
    seen = tokens(output)
    obs.ev("tokens seen in outputs", len(seen))
    leaked = seen & secret
    if leaked:
        raise Violation(f"{what!r} returned content of an unreadable file: {sorted(leaked)}")


# -- histories of commands ---------------------------------------------------------
def gen_history(rng, index, tier):
    case = base_case(rng)
    commands = Commands(rng, case["nodes"], search=case["view"])
    ops = []
    for _ in range(rng.randint(12, 25) if tier == "quick" else rng.randint(20, 80)):
        roll = rng.random()
        if roll < 0.8:
            ops.append(["exec", commands.one()])
        elif roll < 0.92:
            node = rng.choice(case["nodes"])
            ops.append(["policy", node[0], {"readable": rng.random() < 0.4}])
        else:
            ops.append(["api", rng.choice(["read", "search", "python", "ls", "tree", "copy", "rcopy"]), rng.choice(case["nodes"])[0]])
    case["ops"] = ops
    return case


def run_history(case, obs):
    vfs = start(case)
    shell = SandboxShell(vfs)
    executor = PythonExecutor(vfs)
    for op in case["ops"]:
        before = state_of(vfs)
        secret = forbidden(before)
        if op[0] == "policy":
            if vfs.exists(op[1]):
                set_policy(vfs, op[1], op[2])
            continue
        if op[0] == "exec":
            result = shell.exec(op[1])
            watch(obs, op[1], result.stdout + "\n" + result.stderr, secret)
            obs.state(op[1], sorted(secret)[:3])
            after = state_of(vfs)
            if after != before:
                free = set()
                for kind, text, policy, *_ in after.values():
                    if kind == "f" and policy[0]:
                        free |= tokens(text)
                if free & secret:
                    raise Violation(f"{op[1]!r} made unreadable content readable: {sorted(free & secret)}")
                obs.ev("trees watched after a change")
            continue
        try:
            if op[1] == "read":
                text = vfs.read_file(op[2])
            elif op[1] == "search":
                text = "\n".join(r.line_text for r in vfs.search(SearchQuery("tok", path_prefix=None)))
            elif op[1] == "python":
                text = executor.run(f"print(vfs.read_file({op[2]!r}))").stdout
            elif op[1] in ("copy", "rcopy"):
                vfs.copy(op[2], f"/zc{len(before)}", recursive=op[1] == "rcopy")
                free = {word for kind, body, policy, *_ in state_of(vfs).values() if kind == "f" and policy[0] for word in tokens(body)}
                if free & secret:
                    raise Violation(f"copying {op[2]} made unreadable content readable: {sorted(free & secret)}")
                text = ""
            elif op[1] == "ls":
                text = repr(vfs.ls(op[2]))
            else:
                text = vfs.tree(op[2])
        except SandboxError as exc:
            text = str(exc)
        watch(obs, f"{op[1]} {op[2]}", text, secret)


# -- every reader naming a node, refused and allowed ----------------------------------
def gen_direct(rng, index, tier):
    case = base_case(rng, size=(4, 9))
    files = [n for n in case["nodes"] if n[1] == "f"]
    dirs = [n for n in case["nodes"] if n[1] == "d"]
    case["file"] = rng.choice(files)[0] if files else None
    case["dir"] = rng.choice(dirs)[0] if dirs else None
    case["cwd"] = rng.choice(["/"] + [n[0] for n in dirs])
    case["spell"] = rng.random()
    return case


def run_direct(case, obs):
    vfs = start(case)
    shell = SandboxShell(vfs)
    path, top = case["file"], case["dir"]
    for name, _, _, pol, _ in case["nodes"]:
        if name != path:
            set_policy(vfs, name, {})
    if path:
        text = vfs.get_node(path).read(vfs)
        state = state_of(vfs)
        rel = q(path)
        word = sorted(tokens(text))[0]
        view = case["view"]
        commands = {
            f"cat {rel}": text, f"cat < {rel}": text, f"cp {rel} /zz": None, f"cp -r {rel} /zz": None, f"head -n 9 {rel}": text, f"head -c 9999 {rel}": text, f"tail -n 9 {rel}": text,
            f"tail -c 9999 {rel}": text, f"wc {rel}": None, f"wc -l {rel}": None, f"wc -c {rel}": None, f"grep {word} {rel}": None,
            f"grep -r {word} {rel}": None, f"rg -n {word} {rel}": None, f"search {word} {rel}": None,
            f"grep -e {word} {rel}": None, f"cat {rel} | cat": text, f"cat {rel} > /zz": None, f"cat < {rel} >> /zz": None,
            f"search -i {word.upper()} {rel}": None,
        }
        quiet = [f"grep -r {word} /", f"rg {word} /", f"search {word} /", f"search -e {word[:-1]}. /", f"rg -i {word.upper()} /"]
        if view:
            quiet += [f"find {q(view + '?q=' + word)} -type f", f"tree {q(view + '?q=' + word)}", f"grep -r tok {q(view + '?q=' + word)}"]
        for readable in (False, True, False):
            set_policy(vfs, path, {"readable": readable})
            for command, want in commands.items():
                result = shell.exec(command)
                if not readable:
                    watch(obs, command, result.stdout + result.stderr, tokens(text))
                    obs.state(case["nodes"], command)
                    if result.exit_code == 0:
                        raise Violation(f"{command!r} naming an unreadable file succeeded: {result.stdout!r}")
                    obs.ev("direct reads refused")
                else:
                    if result.exit_code != 0:
                        raise Violation(f"{command!r} on the readable file failed: {result.stderr}")
                    if want is not None and result.stdout != want:
                        raise Violation(f"{command!r} on the readable file gave {result.stdout!r}")
                    obs.ev("direct reads allowed again")
                if vfs.exists("/zz"):
                    stored = vfs.read_file("/zz")
                    vfs.remove("/zz")
                    if not readable and tokens(stored) & tokens(text):
                        raise Violation(f"{command!r} copied unreadable content")
            for command in quiet:
                result = shell.exec(command)
                if result.exit_code != 0:
                    raise Violation(f"{command!r} failed: {result.stderr}")
                name = path.rsplit("/", 1)[1]
                found = (name in result.stdout) if view and view in command else word in result.stdout
                if found != readable:
                    raise Violation(f"{command!r} printed {result.stdout!r} while readable={readable}")
                obs.ev("positive controls")
            got = [r.line_text for r in vfs.search(SearchQuery(word))]
            if bool(got) != readable:
                raise Violation(f"search for {word} gave {got} while readable={readable}")
            try:
                got = vfs.read_file(path)
            except SandboxError:
                got = None
            if (got is not None) != readable or (readable and got != text):
                raise Violation(f"read_file gave {got!r} while readable={readable}")
            for recursive in (False, True):
                try:
                    vfs.copy(path, "/zz", recursive=recursive)
                except SandboxError:
                    pass
                made = vfs.exists("/zz")
                if made:
                    vfs.remove("/zz")
                if made != readable:
                    raise Violation(f"copy(recursive={recursive}) {'succeeded' if made else 'was refused'} while readable={readable}")
                obs.ev("direct copies")
        set_policy(vfs, path, {})
        after = state_of(vfs)
        if {p: s[:2] for p, s in state.items()} != {p: s[:2] for p, s in after.items()}:
            raise Violation("reading changed the tree")
    if top:
        vfs.cd(case["cwd"])
        name = q(top)
        commands = [f"ls {name}", f"ls -l {name}", f"tree {name}", f"find {name}", f"find {name} -type f", f"grep -r tok {name}",
                    f"grep tok {name}", f"rg tok {name}", f"rg -n tok {name}", f"ls {name} /", f"ls / {name}", f"find / {name}", f"search tok {name}", f"search -e tok. {name}", f"cd {name}"]
        for readable in (False, True, False):
            set_policy(vfs, top, {"readable": readable})
            for command in commands:
                result = shell.exec(command)
                if (result.exit_code == 0) != readable:
                    raise Violation(f"{command!r} exited {result.exit_code} with the directory readable={readable}: {result.stdout!r}")
                if not readable:
                    obs.ev("directory commands refused")
                    if tokens(result.stdout):
                        raise Violation(f"{command!r} was refused but printed {result.stdout!r}")
            vfs.cd(case["cwd"]) if vfs.get_policy(case["cwd"]).readable else vfs.cd("/")
            for label, call in {"ls": lambda: vfs.ls(top), "tree": lambda: vfs.tree(top), "cd": lambda: vfs.cd(top),
                                "iter_files": lambda: list(vfs.iter_files(top))}.items():
                try:
                    call()
                    ok = True
                except SandboxError:
                    ok = False
                if ok != readable:
                    raise Violation(f"{label}({top}) {'succeeded' if ok else 'was refused'} with the directory readable={readable}")
            vfs.cd("/")


# -- what an unreadable file holds makes no difference -------------------------------------
def gen_blind(rng, index, tier):
    case = base_case(rng)
    for node in case["nodes"]:
        if node[1] == "f" and rng.random() < 0.3:  # more text than an error message or a summary would quote
            node[2] = node[2] * rng.choice([3, 10, 40]) if rng.random() < 0.7 else node[2][: rng.randint(0, 12)]
    commands = Commands(rng, case["nodes"], search=case["view"])
    closed = [n[0] for n in case["nodes"] if n[1] == "f" and n[3].get("readable") is False] or ["/none"]
    ops = []
    for _ in range(rng.randint(12, 25) if tier == "quick" else rng.randint(20, 60)):
        if rng.random() < 0.5:
            ops.append(commands.one())
            continue
        path = q(commands.spell(rng.choice(closed)))
        ops.append(rng.choice([f"stat {path}", f"stat {path}", f"ls {path}", f"ls -l {path}", f"find {path}", f"cat {path}", f"head {path}", f"tail -c 5 {path}", f"wc {path}",
                               f"grep tok {path}", f"grep -e '[' {path}", f"search tok {path}", f"cp {path} /zz1", f"cat < {path}", f"cat {path} > /zz2", f"rm -r {path}/x",
                               f"mkdir {path}", f"mkdir -p {path}/y", f"cd {path}", f"mv {path} {path}/x", f"mv {path} /zz3", f"cp / {path}", f"touch {path}/x",
                               f"write {path}/x y", f"append {path} more", f"write {path} --append --text t", f"echo {path}*", f"tree {path}", f"head -n x {path}"]))
    case["ops"] = ops
    return case


def run_blind(case, obs):
    """The same commands in two sandboxes that differ only in what the unreadable files hold."""
    closed = {n[0] for n in case["nodes"] if n[1] == "f" and n[3].get("readable") is False}
    other = {**case, "nodes": [[n[0], n[1], scrambled(n[2]) if n[0] in closed else n[2], *n[3:]] for n in case["nodes"]]}
    sandboxes = [start(case), start(other)]
    shells = [SandboxShell(vfs) for vfs in sandboxes]
    for command in case["ops"]:
        if "stat" in command and (">" in command or "|" in command):
            continue  # times that are kept, or cut in two
        left, right = [(r.exit_code, undated(r.stdout), undated(r.stderr)) for r in (shell.exec(command) for shell in shells)]
        if left != right:
            raise Violation(f"{command!r} gave {left!r}; with other text in the unreadable files {sorted(closed)} it gives {right!r}")
        if closed:
            obs.ev("answers compared with other unreadable text")
            obs.state("blind", command, sorted(closed))
    left, right = [{path: row[:3] for path, row in state_of(vfs).items() if row[0] != "f" or row[2][0]} for vfs in sandboxes]
    if left != right:
        raise Violation(f"what the unreadable files hold shows in the tree: {[(p, left.get(p), right.get(p)) for p in sorted(set(left) | set(right)) if left.get(p) != right.get(p)][:3]}")
    obs.ev("final trees compared with other unreadable text")


def families():
    return [Family("blind", 500, 6000, gen_blind, run_blind), Family("history", 900, 12000, gen_history, run_history), Family("direct", 500, 5000, gen_direct, run_direct)]
