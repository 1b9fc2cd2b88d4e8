"""C20: export and host commands mirror the tree both ways."""

import collections
import os
import shutil
import subprocess
import tempfile

from ..core import Family, Inconclusive, Violation
from ..gen import TEXTS
from ..hostside import audit, disk, drop
from ..sim import digest_real
from ..world import q, set_policy

from sandfs import MemoryStorageAdapter, SandboxShell, VirtualFileSystem, VisibilityView
from sandfs.exceptions import SandboxError

RULE = ("Host cases run generated scripts twice, through the sandbox's host bridge and directly in a directory the harness filled itself; "
        "output, exit code, the resulting files, the kept versions, policies, metadata and times of untouched nodes, the delivered events and "
        "backing storage are compared. Export cases compare the written directory byte for byte and watch everything around it. Temporary "
        "directories are listed before and after. Everything runs as an unprivileged user. Counted: distinct (tree, script) and (tree, "
        "target) combinations.")
ASSUMPTIONS = ["host files are UTF-8 text, and host commands leave no links or special files", "scripts use relative paths (or absolute sandbox paths of "
               "plain characters)", "scripts changing protected nodes are judged only for the protection and the reported failure"]
REQUIRE = {"paths after an option": 300, "unread provided directories written out": 200, "host scripts judged": 1500, "host changes seen": 600, "host creations seen": 600, "host deletions seen": 400, "untouched nodes compared": 8000,
           "protected nodes in tree": 500, "kind changes": 60, "exports judged": 1200, "export targets with other files": 300, "export targets with links": 150,
           "materialize errors": 300, "host output compared": 1500, "storage mounts mirrored": 200, "events compared": 1500, "failing providers": 60,
           "words with several paths": 150, "words that are no sandbox path": 400, "words with dots in them": 400, "directories listed": 200, "host output that is no text": 50, "results that cannot be read": 60,
           "commands without input": 200, "paths shared with the host": 700}
QUICK_TIMES = 2

HOME = None
NAMES = ["a", "b", "c", "d.txt", "x y", "é", "sub", "e.md", "k", "a b.c", "Data"]
ODD = ["notes~", "._x", ".DS_Store", ".git", "__pycache__", "x.pyc", "a.swp", "#auto#", "Thumbs.db", "node_modules", ".env", "lost+found", "CON", "a:b", "desktop.ini"]
BODY = [t for t in TEXTS if "\x00" not in t]


def setup_worker(scratch, rank):
    global HOME
    HOME = drop(scratch, rank)
    os.makedirs("tmp", exist_ok=True)
    tempfile.tempdir = os.path.join(HOME, "tmp")
    os.environ["TMPDIR"] = tempfile.tempdir
    os.environ["LC_ALL"] = "C.UTF-8"
    os.environ["VERIF_BOTH"] = "the host's value"
    os.environ["VERIF_HOST"] = "host only"
    os.environ["HOME"] = os.path.join(HOME, "home")
    # The sandboxing program's own input is not the command's.
    typed = os.open("typed", os.O_RDWR | os.O_CREAT)
    os.write(typed, b"typed by the user\n" * 3)
    os.dup2(typed, 0)
    os.close(typed)


# -- trees -----------------------------------------------------------------------------------------------------------
def gen_nodes(rng, policies=0.25):
    nodes, dirs, seen = [], ["/"], {"/"}
    for _ in range(rng.randint(2, 11)):
        parent = rng.choice(dirs)
        path = parent.rstrip("/") + "/" + rng.choice(NAMES if rng.random() < 0.8 else ODD)
        if path in seen:
            continue
        seen.add(path)
        is_dir = rng.random() < 0.38
        pol = {}
        if rng.random() < policies:
            pol = rng.choice([{"writable": False}, {"append_only": True}, {"readable": False}, {"readable": False}, {"classification": "secret"},
                              {"principals": ["ann"]}])
        nodes.append([path, "d" if is_dir else "f", None if is_dir else rng.choice(BODY), pol, {"k": rng.choice([1, 2])} if rng.random() < 0.3 else {}])
        if is_dir and path.count("/") < 4:
            dirs.append(path)
    return nodes


def build(case):
    vfs = VirtualFileSystem()
    store = None
    if case.get("store") is not None:
        store = MemoryStorageAdapter(dict(case["store"]))
        vfs.mount_storage("/st", store)
    for path, kind, body, _, _ in case["nodes"]:
        if kind == "d":
            vfs.mkdir(path)
        elif body and body.startswith("provided:"):
            vfs.mount_file(path, lambda ctx, body=body: body)
        else:
            vfs.write_file(path, body)
    for path, _, _, pol, tags in case["nodes"]:
        if pol:
            set_policy(vfs, path, pol)
        vfs.get_node(path).metadata.update(tags)
    return vfs, store


def host_copy(root, state):
    """The tree written to disk by the harness itself."""
    for path in sorted(state):
        if path == "/":
            continue
        full = os.path.join(root, path[1:])
        if state[path][0] == "d":
            os.mkdir(full)
        else:
            with open(full, "wb") as out:
                out.write(state[path][1].encode("utf-8"))


def listing(root):
    """Sandbox-style view of a host directory."""
    found = {}
    for rel, (kind, data) in disk(root).items():
        if kind not in "df":
            raise Inconclusive("links or special files on the host")
        try:
            found["/" + rel] = (kind, data.decode("utf-8") if kind == "f" else None)
        except UnicodeDecodeError:
            raise Inconclusive("binary host file") from None
    return found


def temp_listing():
    return sorted(os.listdir(tempfile.tempdir))


# -- host scripts ---------------------------------------------------------------------------------------------------------
class Script:
    def __init__(self, rng, paths, cwd):
        self.rng, self.paths, self.cwd = rng, paths, cwd

    def rel(self, path):
        here = [p for p in self.cwd.split("/") if p]
        there = [p for p in path.split("/") if p]
        while here and there and here[0] == there[0]:
            here.pop(0)
            there.pop(0)
        text = "/".join([".."] * len(here) + there) or "."
        return q(text if self.rng.random() < 0.8 or text.startswith("..") else "./" + text)

    def some(self, kind=None):
        pool = [p for p, k in self.paths if kind is None or k == kind]
        return self.rel(self.rng.choice(pool)) if pool else "nothing"

    def new(self):
        top = self.rng.choice(["/"] + [p for p, k in self.paths if k == "d"])
        return self.rel(top.rstrip("/") + "/" + self.rng.choice(NAMES + ["new", "n2"] if self.rng.random() < 0.8 else ODD))

    def line(self):
        rng, f, n = self.rng, lambda: self.some("f"), self.new
        word = rng.choice(["hello", "two words", "é ü", "tab\there", "line1\\nline2"])
        return rng.choice([
            lambda: f"printf {q(word)} > {n()}", lambda: f"printf {q(word)} > {f()}", lambda: f"printf '+' >> {f()}", lambda: f"rm -f {f()}",
            lambda: f"rm -rf {self.some('d')}", lambda: f"rm -rf {self.some()}", lambda: f"mkdir -p {n()}", lambda: f"mkdir -p {n()}/x/y", lambda: f"mv {self.some()} {n()}",
            lambda: f"cp -r {self.some()} {n()}", lambda: f"touch {f()}", lambda: f"touch {n()}", lambda: f"cat {f()} > copy.tmp; cat copy.tmp > {f()}; rm copy.tmp",
            lambda: f"sort {f()} -o {f()}", lambda: f"sed -i 's/l/L/' {f()}", lambda: f"truncate -s 0 {f()}", lambda: f"cat {f()}", lambda: "ls -a",
            lambda: f"t={f()}; rm -rf \"$t\"; mkdir -p \"$t\"" if self.bash else "ls", lambda: f"t={self.some('d')}; rm -rf \"$t\"; echo swap > \"$t\"" if self.bash else "ls",
            lambda: f"chmod u+rw {f()}", lambda: f"printf 'a\\r\\nb\\r\\n' > {n()}", lambda: "echo err >&2", lambda: "printf '\\377\\n'; printf late > late", lambda: "printf '\\200' >&2", lambda: "printf 'a\\r\\nb\\rc\\n'",
            lambda: f"wc -c < {f()}",
            lambda: f"cp {f()} bak && mv bak {n()}", lambda: "find . -name 'nothing' -delete", lambda: "true",
            lambda: "printenv " + rng.choice(["A", "VERIF_BOTH", "VERIF_HOST", "B"]), lambda: "printenv A VERIF_BOTH VERIF_HOST",
            lambda: 'printf "[%s]" "$A" "$VERIF_BOTH"' if self.bash else "ls",
        ])()

    bash = True


def gen_host(rng, index, tier):
    nodes = gen_nodes(rng, policies=rng.choice([0, 0, 0.25, 0.5]))
    if rng.random() < 0.2:
        nodes.append(["/dyn", "f", "provided:dynamic text", {}, {}])
    dirs = ["/"] + [n[0] for n in nodes if n[1] == "d"]
    ops = []
    store = {"s1": "stored\n", "deep/s2": "more\r\n"} if rng.random() < 0.3 else None
    paths = [[n[0], n[1]] for n in nodes]
    if store is not None:
        paths += [["/st/s1", "f"], ["/st/deep", "d"], ["/st/deep/s2", "f"]]
        dirs.append("/st")
    for _ in range(rng.randint(1, 4) if tier == "quick" else rng.randint(1, 8)):
        cwd = rng.choice(dirs)
        how = rng.choice(["bash", "sh", "host", "hostC", "fallback", "bash", "pipe"])
        script = Script(rng, paths, cwd)
        script.bash = how in ("bash", "sh")
        text = "; ".join(script.line() for _ in range(rng.randint(1, 4) if rng.random() < 0.97 else 40))
        roll = rng.random()
        if roll < 0.04:
            text += rng.choice([f"; i=0; while [ $i -lt {rng.choice([40, 150])} ]; do echo $i > many$i; i=$((i+1)); done",
                                f"; head -c {rng.choice([5000, 70000, 300000])} /dev/zero | tr '\\0' x > bulk", f"; yes line | head -n {rng.choice([700, 20000])} > bulk",
                                f"; yes word | head -n {rng.choice([900, 40000])}", "; mkdir -p p1/p2/p3/p4/p5/p6/p7/p8/p9/p10/p11/p12; echo deep > p1/p2/p3/p4/p5/p6/p7/p8/p9/p10/p11/p12/f",
                                "; rm -f many1*", f"; echo oops {'x' * 3000} >&2"])
        if rng.random() < 0.06:
            spot = rng.choice([script.some(), script.some("d"), script.some("f"), script.rel("/")])
            text += f"; chmod {rng.choice(['000', '000', '200', '100', '300', '311', '444', '400', '500', '555', '666'])} {spot}"
        if rng.random() < 0.15:
            text += f"; exit {rng.choice([1, 2, 3, 7, 64, 99, 124, 125, 126, 127, 128, 129, 130, 137, 143, 200, 254, 255])}"
        ops.append([how, cwd, text])
    return {"nodes": nodes, "store": store, "ops": ops, "env": rng.choice([{}, {"A": "one two"}, {"VERIF_BOTH": "the sandbox's value"}, {"VERIF_BOTH": "", "A": "x"},
                                                                                 {"A": "é=1;$A", "VERIF_BOTH": "2", "B": "line1 line2"}])}


def closed(root):
    """Entries below that this user may not read; they are opened up again."""
    found, todo = [], [root]
    while todo:
        path = todo.pop()
        if os.path.islink(path):
            continue
        folder = os.path.isdir(path)
        if folder:
            listable, enter = os.access(path, os.R_OK), os.access(path, os.X_OK)
            os.chmod(path, 0o755)
            inside = os.listdir(path)
            found += [path] if not listable or (inside and not enter) else []
            todo += [os.path.join(path, name) for name in inside]
        elif not os.access(path, os.R_OK):
            found.append(path)
            os.chmod(path, 0o644)
    return found


def text_of(output):
    """Output as text; how other bytes are shown is open."""
    try:
        return output.decode("utf-8")
    except UnicodeDecodeError:
        return None


def protected(row):
    return not row[2][1] or row[2][2]


def run_host(case, obs):
    vfs, store = build(case)
    events, writes = [], []
    vfs.register_path_hook("/", lambda event: events.append((event.event, str(event.path), event.content)))
    vfs.register_write_hook("/", lambda event: writes.append((str(event.path), event.content, event.version)))
    shell = SandboxShell(vfs, env=case["env"], host_fallback=True, view=VisibilityView(principals={"ann"}))
    for how, cwd, text in case["ops"]:
        before = digest_real(vfs)
        if before.get(cwd, ("",))[0] != "d" or (how not in ("host", "hostC") and not before[cwd][2][0]):
            continue
        if not any(row[0] == "f" for row in before.values()):
            obs.ev("trees without files")
        root = tempfile.mkdtemp(prefix="own-")
        try:
            host_copy(root, before)
            stdin = ""
            if how in ("pipe",):
                stdin = "piped\r\ntext\n"
            own = subprocess.run(["bash" if how == "bash" else "sh", "-c", text if how != "pipe" else "cat; " + text], cwd=os.path.join(root, cwd[1:]),
                                 input=stdin.encode(), capture_output=True, env={**os.environ, **case["env"]}, check=False)
            if not os.path.isdir(root):
                raise Inconclusive("the script removed its root")
            if b"itself" in own.stderr:
                raise Inconclusive("a recursive copy into itself depends on directory order")
            sealed = closed(root)
            want = listing(root)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        temps = temp_listing()
        pwd = vfs.pwd()
        events.clear()
        writes.clear()
        quoted = q(text)
        if how in ("bash", "sh", "fallback", "pipe"):
            vfs.cd(cwd)
        if how == "fallback":
            shell.commands.pop("sh", None)
        elif "sh" not in shell.commands:
            shell = SandboxShell(vfs, env=case["env"], host_fallback=True, view=VisibilityView(principals={"ann"}))
        command = {"bash": f"bash -c {quoted}", "sh": f"sh -c {quoted}", "host": f"host -p {q(cwd)} sh -c {quoted}", "hostC": f"host -C {q(cwd)} -- sh -c {quoted}",
                   "fallback": f"sh -c {quoted}", "pipe": f"printf 'piped\\r\\ntext\\n' | sh -c {q('cat; ' + text)}"}[how]
        os.lseek(0, 0, os.SEEK_SET)
        result = shell.exec(command)
        obs.ev("host scripts judged")
        obs.state(before.keys(), how, cwd, text)
        where = f"host script {text!r} ({how}, in {cwd})"
        if os.lseek(0, 0, os.SEEK_CUR):
            raise Violation(f"{where} read the program's own input")
        if temp_listing() != temps:
            raise Violation(f"{where}: temporary files were left: {sorted(set(temp_listing()) - set(temps))}")
        after = digest_real(vfs)
        if sealed:
            obs.ev("results that cannot be read")
            if result.exit_code == 0:
                raise Violation(f"{where} left {sealed[:2]}, which cannot be read, but was reported as a success")
            if after != before or events or writes or vfs.pwd() != (cwd if how in ("bash", "sh", "fallback", "pipe") else pwd):
                changed = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
                raise Violation(f"{where} left {sealed[:2]}, which cannot be read: failed ({result.stderr!r}) but changed {changed}, events {events[:3]}")
            continue
        after.pop("/")
        base = {p: r for p, r in before.items() if p != "/"}
        changed = {p for p in set(want) | set(base) if (want.get(p) != base[p][:2] if p in base else True)}
        obs.ev("protected nodes in tree", sum(protected(row) for row in base.values()))
        touched, unsure = [], False
        for path in changed:
            structural = path not in base or path not in want or base[path][0] != want[path][0]
            parent = before.get(path.rsplit("/", 1)[0] or "/")
            for row, at_stake in ((base.get(path), True), (parent, structural)):
                if row is not None and at_stake:
                    if not row[2][1]:
                        touched.append(path)
                    elif row[2][2]:
                        unsure = True
        if unsure and not touched:
            raise Inconclusive("the script changed append-only nodes")
        if touched:
            obs.ev("protected nodes at stake")
            if result.exit_code == 0:
                raise Violation(f"{where} changed protected {touched[:3]} on the host but was reported as a success")
            for path, row in base.items():
                if protected(row) and row[0] == "f":
                    now = after.get(path)
                    if now is None or (now[1] != row[1] and (not row[2][2] or not now[1].startswith(row[1]))):
                        raise Violation(f"{where} altered protected {path}: {row[:2]} -> {now and now[:2]}")
            return
        printed = text_of(own.stdout)
        obs.ev("host output that is no text", int(printed is None))
        if result.exit_code != own.returncode or (printed is not None and result.stdout != printed):
            raise Violation(f"{where} gave {(result.exit_code, result.stdout, result.stderr)!r}, run directly {(own.returncode, own.stdout, own.stderr)!r}")
        if bool(result.stderr) != bool(own.stderr):
            raise Violation(f"{where} gave error text {result.stderr!r}, run directly {own.stderr!r}")
        obs.ev("host output compared")
        for path in sorted(set(want) | set(after)):
            if path not in after or path not in want or after[path][:2] != want[path]:
                raise Violation(f"{where}: afterwards {path} is {after.get(path, ('absent', None))[:2]!r} in the sandbox, {want.get(path)!r} was left on the host")
        for path, row in base.items():
            if path not in changed:
                obs.ev("untouched nodes compared")
                if after[path] != row:
                    raise Violation(f"{where} did not change {path}, but it went from {row!r} to {after[path]!r}")
            elif path in after and after[path][0] == "f" == row[0]:
                obs.ev("host changes seen")
                if after[path][2:5] != (row[2], row[3], row[4] + 1):
                    raise Violation(f"{where} changed {path}: policy, metadata, version went from {row[2:5]!r} to {after[path][2:5]!r}")
        expect = []
        for path in changed:
            old, new = base.get(path, ("", ""))[0], want.get(path, ("", ""))[0]
            if old == "f" and new != "f":
                expect.append(("delete", path))
                obs.ev("host deletions seen")
            if new == "f":
                kind = "update" if old == "f" else "create"
                expect.append((kind, path) if not (old == "f" and base[path][4] == 0) else ("?", path))
                obs.ev("host creations seen", int(old != "f"))
            obs.ev("kind changes", int(bool(old and new and old != new)))
        vague = {p for k, p in expect if k == "?"}
        got = collections.Counter(("?" if p in vague and k != "delete" else k, p) for k, p, _ in events)
        if got != collections.Counter(expect):
            raise Violation(f"{where}: events {sorted(got.items())}, expected {sorted(expect)}")
        if collections.Counter(p for p, _, _ in writes) != collections.Counter(p for k, p in expect if k != "delete"):
            raise Violation(f"{where}: write events for {sorted(p for p, _, _ in writes)}, expected {sorted(p for k, p in expect if k != 'delete')}")
        for path, body, version in writes:
            if body != after[path][1] or version != after[path][4]:
                raise Violation(f"{where}: write event for {path} says {body!r} version {version}, stored {after[path][1]!r} version {after[path][4]}")
        obs.ev("events compared", len(expect))
        if store is not None and "/st" in after:
            entries = {"/st/" + str(rel).lstrip("/"): entry.content for rel, entry in store.list().items()}
            files = {p: r[1] for p, r in after.items() if p.startswith("/st/") and r[0] == "f"}
            if entries != files:
                raise Violation(f"{where}: storage holds {entries!r}, the sandbox shows {files!r}")
            obs.ev("storage mounts mirrored")
        if how in ("host", "hostC") and cwd != pwd and pwd in after | {"/": 1} and vfs.pwd() != pwd:
            raise Violation(f"{where}: the sandbox's current directory moved from {pwd} to {vfs.pwd()}")


# -- absolute sandbox paths --------------------------------------------------------------------------------------------------
def gen_abs(rng, index, tier):
    nodes = [n for n in gen_nodes(rng, policies=0) if all(c.isascii() and (c.isalnum() or c in "/._-") for c in n[0])]
    kept = {"/"}
    nodes = [n for n in nodes if (n[0].rsplit("/", 1)[0] or "/") in kept and not kept.add(n[0])]
    return {"nodes": nodes}


def run_abs(case, obs):
    vfs, _ = build(case)
    shell = SandboxShell(vfs)
    before = digest_real(vfs)
    files = {n[0]: n[2] for n in case["nodes"] if n[1] == "f"}
    dirs = ["/"] + [n[0] for n in case["nodes"] if n[1] == "d"]

    def judge(command, want, what):
        result = shell.exec(command)
        obs.ev("host scripts judged")
        if result.exit_code != 0 or result.stdout != want:
            raise Violation(f"{command!r} gave {result!r}, {what} {want!r}")
        obs.state(command, want)

    for number, (path, body) in enumerate(files.items()):
        for command in (f"host cat {path}", f"bash -c 'cat {path}'", f"host cat {path[1:]}", f"bash -c 'cat ./{path[1:]}'", f"sh -c 'cat <{path}'",
                        f"host -p {dirs[number % len(dirs)]} cat {path}", f"bash -c 'cat \"{path}\"'"):
            judge(command, body, "the file holds")
        start = dirs[number % len(dirs)]
        for odd in (f"/..{path}", f"/../..{path}", f"/.{path}", f"/{path}", start.rstrip("/") + "/.." * start.count("/") + path, f"/../{start.strip('/')}" + "/.." * (start.count("/") + 1) + path):
            judge(f"host cat {odd}", body, "the file holds")
            judge(f"bash -c 'cat {odd}'", body, "the file holds")
            obs.ev("words with dots in them")
        judge(f"host -p /..{start} cat {path}", body, "the file holds")
        judge(f"host dd status=none if={path}", body, "the file holds")
        for glue in ("-f", "--file=", "key=", "-I", "to:"):  # paths after an option or a key
            judge(f"""host sh -c 'cat "${{1#{glue}}}"' sh {glue}{path}""", body, "the file holds")
            obs.ev("paths after an option")
        other = list(files)[(number + 1) % len(files)]
        judge(f"bash -c 'cat {path} {other}'", body + files[other], "the files hold")
        judge(f"bash -c 'cat {path}; cat {other}'", body + files[other], "the files hold")
        judge(f"host cat {path} {other}", body + files[other], "the files hold")
        obs.ev("words with several paths", 3)
        # words that are no sandbox path reach the command as they are
        for text in (f"http://host{path}", f"a{path}", f"./x{path}", f"https://h.example{path}?q=1", f"x:http://h{path}", "/no-such-place/at-all", f"..{path}"):
            judge(f"host echo {text}", text + "\n", "the word was")
            obs.ev("words that are no sandbox path")
        judge(f"bash -c 'echo http://host{path} >&2; cat {path}'", body, "the file holds")
    for top in dirs[1:]:
        below = sorted(p.rsplit("/", 1)[1] for p in before if p != "/" and (p.rsplit("/", 1)[0] or "/") == top)
        for command in (f"host ls -A1 {top}", f"host ls -A1 {top}/", f"bash -c 'ls -A1 {top}'", f"bash -c 'cd {top} && ls -A1'", f"host -C {top} -- ls -A1"):
            judge(command, "".join(name + "\n" for name in below), "the directory holds")
            obs.ev("directories listed")
    names = sorted(p[1:] for p in before if p != "/" and p.count("/") == 1)
    for command in ("host cat", "sh -c cat", "bash -c 'wc -c'", "host head -n 1", "host -p / sh -c 'cat | cat'"):
        os.lseek(0, 0, os.SEEK_SET)
        judge(command, "0\n" if "wc" in command else "", "its input was empty, so it prints")
        if os.lseek(0, 0, os.SEEK_CUR):
            raise Violation(f"{command!r} read the program's own input")
        obs.ev("commands without input")
    shell = SandboxShell(vfs, host_fallback=True, env={"LC_ALL": "C"})
    judge("QUOTING_STYLE=c ls -A1", "".join(f'"{name}"\n' for name in names), "the variable asks for")
    judge("ls -A1", "".join(f"{name}\n" for name in names), "the directory holds")
    if digest_real(vfs) != before:
        raise Violation(f"reading host commands changed the tree: {sorted(before)}")
    # writing to absolute paths
    for number, top in enumerate(dirs):
        if top == "/":
            continue  # a new name at the top cannot be told from a host path
        path = f"{top}/made{number}"
        result = shell.exec(f"bash -c 'echo made {number} > {path}'")
        obs.ev("host scripts judged")
        if result.exit_code or vfs.read_file(path) != f"made {number}\n":
            raise Violation(f"writing {path} by a host command gave {result!r}, {vfs.read_file(path)!r}")
        before[path] = None
    if set(digest_real(vfs)) != set(before):
        raise Violation(f"the tree holds {sorted(digest_real(vfs))}, expected {sorted(before)}")


# -- sandbox paths that the host has as well -----------------------------------------------------------------------------------
def gen_shared(rng, index, tier):
    return {"names": rng.sample(["a", "b.txt", "d/c", "d/e/f", "x-y", "_z"], rng.randint(1, 4)), "host": rng.choice(["same", "same", "dirs", "other"]),
            "ops": [[rng.choice(["cat", "bash", "write", "append", "rm", "cp", "ls", "mkdir", "new"]), rng.random()] for _ in range(rng.randint(3, 7))]}


def run_shared(case, obs):
    """The sandbox holds the very paths of a scratch directory on the host: commands work on the sandbox's files only."""
    scratch = tempfile.mkdtemp(prefix="shared-", dir=HOME)
    try:
        vfs = VirtualFileSystem()
        texts = {}
        for number, name in enumerate(case["names"]):
            path = f"{scratch}/{name}"
            os.makedirs(os.path.dirname(path), exist_ok=True)
            texts[path] = f"sandbox {number}\n"
            vfs.write_file(path, texts[path])
            if case["host"] in ("same", "other"):
                with open(path if case["host"] == "same" else path + ".other", "w", encoding="utf-8") as out:
                    out.write(f"host {number}\n")
        real = disk(scratch)
        shell = SandboxShell(vfs, host_fallback=True)
        for number, (op, pick) in enumerate(case["ops"]):
            if not texts:
                break
            path = sorted(texts)[int(pick * len(texts))]
            want = ""
            if op == "cat":
                command, want = f"host cat {path}", texts[path]
            elif op == "bash":
                command, want = f"bash -c 'cat <{path}'", texts[path]
            elif op == "write":
                command = f"sh -c 'echo new {number} > {path}'"
                texts[path] = f"new {number}\n"
            elif op == "append":
                command = f"bash -c 'echo more >> {path}'"
                texts[path] += "more\n"
            elif op == "rm":
                command = f"host rm {path}"
                del texts[path]
            elif op == "cp":
                command = f"host cp {path} {path}.copy{number}"
                texts[f"{path}.copy{number}"] = texts[path]
            elif op == "ls":
                command, want = f"host ls -d {path}", None
            elif op == "mkdir":
                command = f"host mkdir -p {os.path.dirname(path)}/made{number}"
            else:
                command = f"bash -c 'echo {number} > {scratch}/fresh{number}'"
                texts[f"{scratch}/fresh{number}"] = f"{number}\n"
            result = shell.exec(command)
            obs.ev("paths shared with the host")
            if result.exit_code or (want is not None and result.stdout != want):
                raise Violation(f"{command!r} gave {result!r}, the sandbox's files say {want!r}")
            got = {str(p): node.read(vfs) for p, node in vfs.iter_files("/")}
            if got != texts:
                bad = [p for p in set(got) | set(texts) if got.get(p) != texts.get(p)]
                raise Violation(f"after {command!r} the sandbox holds {[(p, got.get(p), texts.get(p)) for p in bad][:3]} (path, found, expected)")
            if disk(scratch) != real:
                raise Violation(f"{command!r} worked on the host's files: {disk(scratch)!r}, before {real!r}")
            obs.state(case["host"], op, len(texts))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# -- export and materialize ------------------------------------------------------------------------------------------------------
def gen_export(rng, index, tier):
    nodes = gen_nodes(rng, policies=0.3)
    if rng.random() < 0.3:
        nodes.append(["/dyn", "f", "provided:dynamic\r\ntext", {}, {}])
    dirs = ["/"] + [n[0] for n in nodes if n[1] == "d"]
    return {"nodes": nodes, "source": rng.choice([None, *dirs]), "cwd": rng.choice(dirs), "target": rng.choice(["fresh", "deep/er", "busy", "links", "~", "~/x", "~root", "$HOME/x", "a b*", "%TEMP%", "é", "x/../y"]),
            "given": rng.choice(["absolute", "absolute", "relative"]),
            "fail": rng.random() < 0.15, "raise": rng.random() < 0.4, "as": rng.choice(["str", "path"])}


def run_export(case, obs):
    vfs, _ = build(case)
    if not vfs.get_node(case["cwd"]).policy.readable:
        return
    vfs.cd(case["cwd"])
    if case["fail"]:
        vfs.mount_file("/zz/bad", lambda ctx: 1 / 0)
    before = digest_real(vfs)
    source = case["source"] if case["source"] is not None else case["cwd"]
    prefix = source.rstrip("/") + "/"
    want = {p[len(prefix):]: (r[0], None if r[0] == "d" else (r[1] or "").encode()) for p, r in before.items() if p.startswith(prefix) and p != "/"}
    failing = case["fail"] and source == "/"
    arena = tempfile.mkdtemp(prefix="arena-")
    try:
        os.makedirs(f"{arena}/outside/keep")
        with open(f"{arena}/outside/secret", "w") as out:
            out.write("outside")
        target = f"{arena}/{case['target']}"
        others = {}
        if case["target"] in ("busy", "links"):
            os.makedirs(target)
            with open(f"{target}/zz-other", "w") as out:
                out.write("mine")
            others = {"zz-other": ("f", b"mine")}
            obs.ev("export targets with other files")
        if case["target"] == "links":
            obs.ev("export targets with links")
            for rel, (kind, _) in want.items():
                if "/" not in rel:
                    os.symlink(f"{arena}/outside/{'secret' if kind == 'f' else 'keep'}", f"{target}/{rel}")
        import pathlib
        given = pathlib.Path(target if case["given"] == "absolute" else case["target"])
        temps = temp_listing()
        hook = audit()
        os.chdir(arena)
        if case["target"] == "x/../y":
            os.mkdir("x")
        try:
            with hook:
                returned = vfs.export_to_path(given, source=case["source"]) if case["source"] is not None else vfs.export_to_path(given)
        except SandboxError:
            if not failing:
                raise
            obs.ev("failing providers")
        else:
            if failing:
                raise Violation("an export over a failing provider reported success")
            if os.path.normpath(os.path.join(arena, str(returned))) != os.path.normpath(target):
                raise Violation(f"export returned {returned}, not {target}")
            got = {rel: row for rel, row in disk(target).items() if rel not in others}
            if got != want:
                bad = sorted(p for p in set(got) | set(want) if got.get(p) != want.get(p))[:4]
                raise Violation(f"export of {source}: {[(p, got.get(p), want.get(p)) for p in bad]} (path, on disk, expected)")
            if others and disk(target).get("zz-other") != ("f", b"mine"):
                raise Violation("export changed an unrelated file of the target directory")
        for event in hook.events:
            path = str(event[1]) if len(event) > 1 else ""
            if event[0] in ("open", "os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.symlink", "os.chmod") and path.startswith("/") and not path.startswith(arena) \
                    and not path.endswith((".py", ".pyc")):
                raise Violation(f"export touched {event}")
        known = {"outside", "x", os.path.normpath(case["target"]).split("/")[0]}
        if set(os.listdir(arena)) - known or os.path.exists(os.path.join(HOME, "home")):
            raise Violation(f"export to {case['target']!r} wrote to {sorted(set(os.listdir(arena)) - known)} or the user's home")
        outside = disk(f"{arena}/outside")
        if outside != {"keep": ("d", None), "secret": ("f", b"outside")}:
            raise Violation(f"export of {source} wrote outside its target: {outside}")
        if temp_listing() != temps:
            raise Violation("export left temporary files")
        if digest_real(vfs) != before or vfs.pwd() != case["cwd"]:
            raise Violation("export changed the sandbox")
        obs.ev("exports judged")
        obs.state(case["nodes"], case["source"], case["cwd"], case["target"])
    finally:
        os.chdir(HOME)
        shutil.rmtree(arena, ignore_errors=True)
    # materialize
    temps = temp_listing()
    seen = None
    try:
        with (vfs.materialize(case["source"]) if case["source"] is not None else vfs.materialize()) as root:
            seen = str(root)
            if failing:
                raise Violation("materialize over a failing provider reported success")
            if disk(root) != want:
                raise Violation(f"materialize of {source} shows {sorted(disk(root))}, expected {sorted(want)}")
            if not os.path.abspath(seen).startswith(tempfile.tempdir + "/"):
                raise Violation(f"materialize used {seen}, not a fresh temporary directory")
            with open(os.path.join(seen, "zz-extra"), "w") as out:
                out.write("x")
            if case["raise"]:
                raise KeyError("body failed")
    except KeyError:
        obs.ev("materialize errors")
    except SandboxError:
        if not failing:
            raise
        obs.ev("failing providers")
    if seen is not None and os.path.exists(seen) or temp_listing() != temps:
        raise Violation("a materialized directory was left behind")
    if digest_real(vfs) != before:
        raise Violation("materializing changed the sandbox")
    # a host command over a failing provider changes nothing and leaves nothing
    if failing:
        shell = SandboxShell(vfs)
        result = shell.exec("host -p / touch new")
        if result.exit_code == 0 or not result.stderr:
            raise Violation(f"a host command over a failing provider gave {result!r}")
        if digest_real(vfs) != before or temp_listing() != temps:
            raise Violation("a failed host command left something behind")


# -- provided directories nobody has looked at yet -----------------------------------------------------------------------------------
def gen_lazy(rng, index, tier):
    def tree(depth):
        names = rng.sample(["a", "b.txt", "c d", "é", "sub", "in", ".h"], rng.randint(0 if depth < 2 else 1, 4))
        return {name: tree(depth - 1) if depth and rng.random() < 0.45 else rng.choice(TEXTS) for name in names}
    return {"tree": tree(2), "spot": rng.choice(["/lazy", "/w/lazy", "/w/x/lazy"]), "beside": rng.random() < 0.5, "source": rng.choice(["spot", "spot", "spot", "root", "cwd"]),
            "how": rng.choice(["export", "export", "export", "materialize", "host"]), "busy": rng.random() < 0.6, "calls": rng.random() < 0.5, "nest": rng.random() < 0.5}


def run_lazy(case, obs):
    """A provided directory is written out in full although nothing has been read from it so far."""
    from sandfs.providers import ProvidedNode

    def provided(tree):
        nodes = {}
        for name, body in tree.items():
            if isinstance(body, dict):
                nodes[name] = ProvidedNode.directory(directory_provider=lambda ctx, body=body: provided(body)) if case["nest"] else ProvidedNode.directory(children=provided(body))
            else:
                nodes[name] = ProvidedNode.file(content_provider=lambda ctx, body=body: body) if case["calls"] else ProvidedNode.file(content=body)
        return nodes

    def rows(tree, prefix):
        for name, body in tree.items():
            if isinstance(body, dict):
                yield prefix + name, ("d", None)
                yield from rows(body, f"{prefix}{name}/")
            else:
                yield prefix + name, ("f", body.encode())

    vfs = VirtualFileSystem()
    vfs.mount_directory(case["spot"], lambda ctx: provided(case["tree"]))
    source = "/" if case["source"] == "root" else case["spot"]
    steps = case["spot"].strip("/").split("/")
    prefix = case["spot"].strip("/") + "/" if source == "/" else ""
    want = dict(rows(case["tree"], prefix))
    if source == "/":
        want.update({"/".join(steps[:n]): ("d", None) for n in range(1, len(steps) + 1)})
    if case["beside"]:
        vfs.write_file("/beside", "beside")
        if source == "/":
            want["beside"] = ("f", b"beside")
    if case["source"] == "cwd":
        vfs.cd(case["spot"])
    given = {} if case["source"] == "cwd" else {"source": source}
    arena = tempfile.mkdtemp(prefix="arena-")
    try:
        if case["how"] == "export":
            import pathlib
            if case["busy"]:
                with open(f"{arena}/zz-old", "w") as out:
                    out.write("old")
                want["zz-old"] = ("f", b"old")
            vfs.export_to_path(pathlib.Path(arena), **given)
            got = disk(arena)
        elif case["how"] == "materialize":
            with (vfs.materialize(source) if given else vfs.materialize()) as root:
                got = disk(root)
        else:
            want = {p: r for p, r in want.items() if r[0] == "f"}
            result = SandboxShell(vfs).exec((f"host -p {source}" if given else "host") + " find . -type f -printf '%P\\0%s\\0'")
            if result.exit_code:
                raise Violation(f"a host command over a provided directory gave {result!r}")
            words = result.stdout.split("\0")
            got = dict(zip(words[::2], words[1::2]))
            got.pop("", None)
            want = {p: str(len(r[1])) for p, r in want.items()}
        if got != want:
            bad = sorted(p for p in set(got) | set(want) if got.get(p) != want.get(p))[:4]
            raise Violation(f"{case['how']} of {source}, provided at {case['spot']} and not read before: {[(p, got.get(p), want.get(p)) for p in bad]} (path, written out, expected)")
    finally:
        shutil.rmtree(arena, ignore_errors=True)
    obs.ev("unread provided directories written out")
    obs.state("lazy", case["tree"], case["how"], case["source"], case["busy"])


def families():
    return [
        Family("lazy", 250, 3000, gen_lazy, run_lazy),
        Family("host", 1400, 14000, gen_host, run_host),
        Family("absolute", 60, 600, gen_abs, run_abs),
        Family("shared", 250, 2500, gen_shared, run_shared),
        Family("export", 1600, 16000, gen_export, run_export),
    ]
