"""C24: the command line runs the same sandbox."""

import contextlib
import io
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile

from ..core import REPO, Family, Violation
from ..hostside import disk, drop, stamps
from ..sim import _short, q
from ..world import Commands

from sandfs import FileSystemAdapter, NodePolicy, SandboxShell, VirtualFileSystem
from sandfs import cli

RULE = ("Each case fills host directories, mounts one copy through the command line and an identical copy in a shell built by the harness, feeds both the "
        "same commands (exec once per command, interactive sessions line by line, in the same process or as a separate one) and compares output, error "
        "text, exit codes, prompts and the resulting directories; direct cases compare what is printed and stored with the host files themselves. "
        "Everything around the mounted directories is compared before and after. Runs as an unprivileged user. Counted: distinct (options, commands, "
        "results) observations.")
ASSUMPTIONS = ["mount options are well formed and name directories", "entry order within a listing of equal rank is not compared"]
REQUIRE = {"directories with odd names mounted": 200, "exec commands compared": 2500, "interactive lines compared": 4000, "failing interactive lines survived": 500, "sessions ended by a quit word": 150,
           "sessions ended by end of input": 150, "separate processes": 40, "mounted files read": 600, "writes landed": 300, "removals landed": 150,
           "host fallback used": 40, "host fallback refused": 60, "search view used": 40, "search view absent": 60, "directories compared": 2500,
           "long lines compared": 60}

HOME = None
ODD = ["~", "~root", "$HOME", "%h", " lead", ".hid", "é", "a b", "...", "{x}", "~/in", "sub/../alt", "./dot"]
NAMES = ["a", "b.txt", "c", "x y", "é", "sub", "d.md", "n1q", "n2q.txt"]
TEXTS = ["", "x", "hello\n", "line one\nline two\n", "crlf\r\nlines\r\n", "é ü 日本\n", "tok1z alpha\ntok2z beta\n", "no newline", "end\n\n", "todo alpha tok3z"]


def setup_worker(scratch, rank):
    global HOME
    HOME = drop(scratch, rank)
    os.makedirs("bin")
    script = pathlib.Path("bin", "marktool")
    script.write_text(f"#!/bin/sh\nset -e\necho ran >> '{HOME}/marks'\necho \"tool $1\"\ncat\n")
    script.chmod(0o755)
    os.environ["PATH"] = f"{HOME}/bin:/usr/bin:/bin"
    os.environ["LC_ALL"] = "C.UTF-8"


# -- configurations ----------------------------------------------------------------------------------------------------
def gen_files(rng, limit=5):
    files = {}
    for _ in range(rng.randint(0, limit)):
        rel = "/".join(rng.choice(NAMES) for _ in range(rng.randint(1, 3)))
        if not any(rel == o or rel.startswith(o + "/") or o.startswith(rel + "/") for o in files):
            files[rel] = rng.choice(TEXTS)
    if rng.random() < 0.02:
        for number in range(rng.choice([40, 130, 300])):
            files.setdefault(f"many{number}", f"many {number} tok1z\n")
    if rng.random() < 0.03:
        files["big"] = "big line é\n" * rng.choice([500, 9000, 100000])
    return files


def gen_config(rng):
    spots = rng.sample(["/w", "/data", "/w/inner", "rel", "/deep/er", "/w2", "/x y", "/col:on"], rng.choice([0, 1, 1, 1, 2, 2, 3]))
    spots.sort(key=lambda s: s.count("/"))
    if spots and rng.random() < 0.12:
        spots.append(rng.choice([spots[0], spots[0].rstrip("/") + "/"]))  # given again: the later directory shows
    if rng.random() < 0.04:
        spots += [f"/mount{number}" for number in range(rng.choice([5, 9, 17, 33]))]
    return {"mounts": [[spot, gen_files(rng)] for spot in spots], "search": rng.random() < 0.4, "host": rng.random() < 0.4,
            "relative": rng.random() < 0.3, "odd": rng.choice(ODD) if rng.random() < 0.15 else None}


def nodes_of(config):
    nodes = [["/", "d"]]
    for spot, files in config["mounts"]:
        top = "/" + spot.strip("/")
        nodes.append([top, "d"])
        for rel in files:
            nodes.append([f"{top}/{rel}", "f"])
            steps = rel.split("/")
            for n in range(1, len(steps)):
                nodes.append([f"{top}/{'/'.join(steps[:n])}", "d"])
    return nodes


def fill(base, config):
    """One host directory per mount, plus one nobody mounted."""
    roots = []
    for number, (_, files) in enumerate(config["mounts"]):
        if config.get("odd"):  # named from the directory itself; an empty one is left for the mount to make
            root = os.path.join(base, config["odd"], f"m{number}")
            if ".." in root:
                os.makedirs(os.path.join(base, "sub"), exist_ok=True)
            if files:
                os.makedirs(root, exist_ok=True)
        else:
            root = os.path.join(base, f"m{number}")
            os.makedirs(root)
        for rel, text in files.items():
            full = pathlib.Path(root, rel)
            full.parent.mkdir(parents=True, exist_ok=True)
            full.write_bytes(text.encode("utf-8"))
        roots.append(root)
    os.makedirs(os.path.join(base, "aside"))
    pathlib.Path(base, "aside", "kept").write_text("kept")
    return roots


def reference(roots, config):
    vfs = VirtualFileSystem()
    for root, (spot, _) in zip(roots, config["mounts"]):
        vfs.mount_storage(spot, FileSystemAdapter(pathlib.Path(root)), policy=NodePolicy(writable=True))
    if config["search"]:
        vfs.enable_full_text_index()
        vfs.enable_search_view()
    return vfs, SandboxShell(vfs, host_fallback=config["host"])


def options(roots, config, sub):
    args = [sub]
    for root, (spot, _) in zip(roots, config["mounts"]):
        if config.get("odd"):
            root = root[root.index("/one/") + 5:]
        elif config["relative"]:
            root = os.path.relpath(root)
        args += ["--mount", f"{root}:{spot}"]
    if config["search"]:
        args.append("--enable-search")
    if config["host"]:
        args.append("--host")
    return args


def run_cli(args, stdin="", separate=False):
    if separate:
        done = subprocess.run([sys.executable, "-c", "import sys; from sandfs.cli import main; main(sys.argv[1:])", *args], input=stdin.encode("utf-8"),
                              capture_output=True, env={**os.environ, "PYTHONPATH": str(REPO), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONIOENCODING": "utf-8"},
                              check=False, timeout=60)
        return done.stdout.decode("utf-8"), done.stderr.decode("utf-8"), done.returncode
    out, err = io.StringIO(), io.StringIO()
    saved = sys.stdin
    sys.stdin = io.StringIO(stdin)
    code = "no exit"
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                cli.main(args)
            except SystemExit as exc:
                code = exc.code
    finally:
        sys.stdin = saved
    if code is None:
        code = 0
    if not isinstance(code, int):
        raise Violation(f"the command line ended with {code!r}; {err.getvalue()!r}")
    return out.getvalue(), err.getvalue(), code


def same_text(left, right):
    left, right = (re.sub(r"/tmp[a-z0-9_]{8}\b", "/TEMP", text) for text in (left, right))  # names of materialized directories
    return left == right or sorted(left.split("\n")) == sorted(right.split("\n"))


class Pair:
    """Two identical sets of host directories."""

    def cli(self, args, stdin="", separate=False):
        if not self.config.get("odd"):
            return run_cli(args, stdin, separate)
        os.chdir(self.mine)
        try:
            return run_cli(args, stdin, separate)
        finally:
            os.chdir(HOME)

    def __init__(self, config):
        self.config = config
        self.base = tempfile.mkdtemp(prefix="cli-", dir=HOME)
        self.mine = os.path.join(self.base, "one")
        self.theirs = os.path.join(self.base, "two")
        self.roots = fill(self.mine, config)
        self.twins = fill(self.theirs, config)

    def __enter__(self):
        self.around = {k: v for k, v in stamps(HOME).items() if not k.startswith(os.path.relpath(self.base, HOME)) and k != "marks"}
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.base, ignore_errors=True)
        with contextlib.suppress(FileNotFoundError):
            os.remove(os.path.join(HOME, "marks"))
        return False

    def compare(self, obs, what):
        left, right = disk(self.mine), disk(self.theirs)
        obs.ev("directories compared")
        if left != right:
            diff = [f"{p}: {_short(left.get(p))} expected {_short(right.get(p))}" for p in sorted(set(left) | set(right)) if left.get(p) != right.get(p)]
            raise Violation(f"{what} left the mounted directories as " + "; ".join(diff[:4]))
        now = {k: v for k, v in stamps(HOME).items() if not k.startswith(os.path.relpath(self.base, HOME)) and k != "marks"}
        if now != self.around:
            raise Violation(f"{what} changed files elsewhere: {[k for k in set(now) | set(self.around) if now.get(k) != self.around.get(k)][:4]}")


LONG = [300, 1100, 4200, 9000, 70000]


def gen_command(rng, commands, config):
    roll = rng.random()
    if rng.random() < 0.03:
        size = rng.choice(LONG)
        return rng.choice([f"echo {'x' * size}", f"echo {'word ' * (size // 5)}end", f"write /long '{'y é' * (size // 3)}'", f"cat /w/a{' /w/a' * min(size // 5, 400)}",
                           f"cat /{'z' * min(size, 200)}", f"echo a{' | cat' * min(size // 8, 60)}", f"echo {'x' * size} | grep -c x", " " * size + "echo late",
                           f"printf '{'l' * size}\\nend\\n' | tail -n 1", "cat /w/big", "ls /w", "wc /w/big"])
    if roll < 0.13:
        return rng.choice(["marktool a", "marktool", "marktool c d", "marktool", "echo x | marktool b", "nosuchtool", f"sh -c 'exit {rng.choice([1, 2, 63, 64, 126, 127, 128, 129, 130, 200, 254, 255])}'",
                           "bash -c 'kill -9 $$'", f"bash -c 'echo out; echo err >&2; exit {rng.randrange(256)}'", "host -p / false"])
    if roll < 0.29:
        return rng.choice(["ls /@search", "ls '/@search?q=tok'", "tree '/@search?q=a'", "search tok", "ls /", "cat '/@search?q=hello/w/a'", "cd /@search"])
    if roll < 0.36:
        return rng.choice(["", "   ", "exit 1", "echo quit", "quit now", ":q!", "echo 'unterminated", "V=val", "echo -n no newline", "head -n x", "cat /nope",
                           "printf 'a\\nb'", "printf 'x\\ty\\n' | wc", "echo 'a\\nb'", "echo 'c:\\new' > /w/a", "echo %s {x} ~ '~'", "echo \"it's\"", "echo -- --mount",
                           "python 'print(1)'", "python '1/0'", "echo |", "exits", "EXIT", "Quit", ":Q", "QUIT", "exit;", "q", ":quit", "'exit' now", "exit exit", "bye", "logout", "exit 0"])
    while True:
        text = commands.one()
        if "stat" not in text and not text.startswith("-"):
            return text


def reach(rng, config):
    return Commands(rng, nodes_of(config), search="/@search" if config["search"] else None)


# -- exec -----------------------------------------------------------------------------------------------------------------
def gen_exec(rng, index, tier):
    config = gen_config(rng)
    commands = reach(rng, config)
    return {"config": config, "ops": [gen_command(rng, commands, config) for _ in range(rng.randint(3, 7))], "separate": rng.random() < 0.02,
            "last": rng.random() < 0.5}


def run_exec(case, obs):
    config = case["config"]
    with Pair(config) as pair:
        for command in case["ops"]:
            vfs, shell = reference(pair.twins, config)
            marks = count_marks()
            want = shell.exec(command)
            marked = count_marks() - marks
            args = options(pair.roots, config, "exec")
            args = [*args, command] if case["last"] else [args[0], command, *args[1:]]
            out, err, code = pair.cli(args, separate=case["separate"])
            obs.ev("separate processes", int(case["separate"]))
            if not same_text(out, want.stdout) or not same_text(err, want.stderr) or code != (want.exit_code & 0xFF if case["separate"] else want.exit_code):
                raise Violation(f"exec {command!r} gave {_short((out, err, code))}, a shell over the same mounts gives "
                                f"{_short((want.stdout, want.stderr, want.exit_code))}")
            if count_marks() - marks != 2 * marked:
                raise Violation(f"exec {command!r} ran a host command {count_marks() - marks - marked} times, a shell {marked} times")
            judge_flags(command, config, out, code, marked, obs)
            obs.ev("exec commands compared")
            obs.ev("directories with odd names mounted", int(bool(config.get("odd") and config["mounts"])))
            obs.ev("long lines compared", int(len(command) > 1000))
            pair.compare(obs, f"exec {command!r}")
            obs.state("exec", config["search"], config["host"], command, out, err, code)


def count_marks():
    try:
        with open(os.path.join(HOME, "marks"), encoding="utf-8") as handle:
            return len(handle.readlines())
    except FileNotFoundError:
        return 0


def judge_flags(command, config, out, code, marked, obs):
    """Independent of the reference shell."""
    if command.startswith("marktool"):
        obs.ev("host fallback used" if config["host"] else "host fallback refused")
        if bool(marked) != config["host"] or (code == 0) != config["host"]:
            raise Violation(f"{command!r} with host fallback {'on' if config['host'] else 'off'} exited {code}, running the tool {marked} times")
    if command in ("ls /@search", "ls '/@search?q=tok'", "tree '/@search?q=a'"):
        obs.ev("search view used" if config["search"] else "search view absent")
        if (code == 0) != config["search"]:
            raise Violation(f"{command!r} with search {'on' if config['search'] else 'off'} exited {code}: {out!r}")


# -- interactive --------------------------------------------------------------------------------------------------------------
def gen_session(rng, index, tier):
    config = gen_config(rng)
    commands = reach(rng, config)
    ops = []
    for _ in range(rng.randint(3, 12) if rng.random() < 0.96 else rng.choice([60, 130, 280])):
        ops.extend(line for line in gen_command(rng, commands, config).split("\n"))
    end = rng.choice([":q", "exit", "quit", " quit ", "exit\t", None, None, None])
    return {"config": config, "ops": ops, "end": end, "after": ["echo late > /late", "echo too late"] if end else [], "newline": rng.random() < 0.8,
            "separate": rng.random() < 0.03}


def run_session(case, obs):
    config = case["config"]
    with Pair(config) as pair:
        vfs, shell = reference(pair.twins, config)
        marks = count_marks()
        want_out, want_err = "", ""
        for line in case["ops"]:
            want_out += f"{vfs.pwd()}$ "
            result = shell.exec(line)
            want_out += result.stdout
            want_err += result.stderr
            obs.ev("interactive lines compared")
            obs.ev("long lines compared", int(len(line) > 1000))
            obs.ev("failing interactive lines survived", int(result.exit_code != 0))
        want_out += f"{vfs.pwd()}$ "
        marked = count_marks() - marks
        lines = list(case["ops"])
        if case["end"] is not None:
            lines += [case["end"], *case["after"]]
        text = "\n".join(lines) + ("\n" if case["newline"] or (lines and lines[-1] == "") else "")
        if case["end"] is None and not lines:
            text = ""
        out, err, code = pair.cli(options(pair.roots, config, "shell"), stdin=text, separate=case["separate"])
        obs.ev("separate processes", int(case["separate"]))
        obs.ev("sessions ended by end of input" if case["end"] is None else "sessions ended by a quit word")
        if code != 0:
            raise Violation(f"the interactive session exited {code}: {err!r}")
        if not same_text(out, want_out):
            raise Violation(f"the interactive session printed {_short(out)}, a shell gives {_short(want_out)}")
        if not same_text(err, want_err):
            raise Violation(f"the interactive session reported {_short(err)}, a shell gives {_short(want_err)}")
        if count_marks() - marks != 2 * marked:
            raise Violation("the interactive session ran other host commands than a shell")
        pair.compare(obs, "the interactive session")
        obs.state("session", config["search"], config["host"], out, err)


# -- the mounted directories themselves ---------------------------------------------------------------------------------------
def gen_direct(rng, index, tier):
    config = gen_config(rng)
    while not config["mounts"]:
        config = gen_config(rng)
    config["odd"] = None
    config["mounts"] = [m for m in config["mounts"] if m[0] != "/w/inner"] or [["/w", gen_files(rng)]]
    config["mounts"] = list({m[0].rstrip("/"): m for m in config["mounts"]}.values())
    ops = []
    for _ in range(rng.randint(3, 8)):
        ops.append([rng.choice(["cat", "cat", "write", "append", "new", "rm", "ls", "mv"]), rng.randrange(100), rng.randrange(100),
                    rng.choice(["fresh text", "é x", "a  b", ""]), rng.random() < 0.4])
    return {"config": config, "ops": ops}


def run_direct(case, obs):
    config = case["config"]
    with Pair(config) as pair:
        want = disk(pair.mine)
        for what, which, pick, text, interactive in case["ops"]:
            number = which % len(pair.roots)
            spot = "/" + config["mounts"][number][0].strip("/")
            files = sorted(p for p, (kind, _) in want.items() if kind == "f" and p.startswith(f"m{number}/"))
            rel = files[pick % len(files)] if files else None
            inside = rel.split("/", 1)[1] if rel else None
            if rel is None and what != "new":
                continue
            expect = None
            if what == "cat":
                command, expect = f"cat {q(spot + '/' + inside)}", want[rel][1].decode("utf-8")
            elif what == "ls":
                names = {p.split("/")[1] + ("/" if kind == "d" or p.count("/") > 1 else "") for p, (kind, _) in want.items()
                         if p.startswith(f"m{number}/") and (kind == "f" or any(o.startswith(p + "/") and want[o][0] == "f" for o in want))}
                command, expect = f"ls {q(spot)}", "  ".join(sorted(names, key=lambda n: (not n.endswith("/"), n.rstrip("/"))))
            elif what == "write":
                command = f"echo -n {q(text)} > {q(spot + '/' + inside)}"
                want[rel] = ("f", text.encode("utf-8"))
                expect = ""
            elif what == "append":
                command = f"echo -n {q(text)} >> {q(spot + '/' + inside)}"
                want[rel] = ("f", want[rel][1] + text.encode("utf-8"))
                expect = ""
            elif what == "new":
                name = f"made{pick}"
                command = f"write {q(f'{spot}/{name}/leaf')} {q(text)}"
                if f"m{number}/{name}/leaf" not in want:
                    want[f"m{number}/{name}"] = ("d", None)
                want[f"m{number}/{name}/leaf"] = ("f", text.encode("utf-8"))
            elif what == "rm":
                command, expect = f"rm {q(spot + '/' + inside)}", ""
                del want[rel]
            elif what == "mv":
                other = (number + 1) % len(pair.roots)
                there = "/" + config["mounts"][other][0].strip("/")
                name = f"moved{pick}"
                if f"m{other}/{name}" in want:
                    continue
                command, expect = f"mv {q(spot + '/' + inside)} {q(f'{there}/{name}')}", ""
                want[f"m{other}/{name}"] = want.pop(rel)
            if interactive:
                out, err, code = run_cli(options(pair.roots, config, "shell"), stdin=f"cd /nowhere\n{command}\nquit\n")
                expect = f"/$ /$ {expect}/$ " if expect is not None else None
                if "nowhere" not in err:
                    raise Violation(f"the failing line before {command!r} was not reported: {err!r}")
                err = ""
            else:
                out, err, code = run_cli([*options(pair.roots, config, "exec"), command])
            if code != 0 or err:
                raise Violation(f"{command!r} exited {code}: {err!r}")
            if expect is not None and out != expect:
                raise Violation(f"{command!r} printed {_short(out)}, expected {_short(expect)}")
            obs.ev({"cat": "mounted files read", "ls": "mounted directories listed", "rm": "removals landed"}.get(what, "writes landed"))
            now = disk(pair.mine)
            left = {p: r for p, r in now.items() if r[0] != "d"}
            right = {p: r for p, r in want.items() if r[0] != "d"}
            if left != right:
                diff = [f"{p}: {_short(left.get(p))} expected {_short(right.get(p))}" for p in sorted(set(left) | set(right)) if left.get(p) != right.get(p)]
                raise Violation(f"after {command!r} the host directories hold " + "; ".join(diff[:4]))
            if any(now[p][0] == "d" and p.split("/")[0] == "aside" and p != "aside" for p in now):
                raise Violation(f"{command!r} created a directory outside the mounts")
            obs.ev("directories compared")
            obs.state("direct", what, out, sorted(right))
        now = {k: v for k, v in stamps(HOME).items() if not k.startswith(os.path.relpath(pair.base, HOME)) and k != "marks"}
        if now != pair.around:
            raise Violation("the command line changed files elsewhere")


def families():
    return [Family("exec", 1000, 8000, gen_exec, run_exec), Family("session", 900, 10000, gen_session, run_session),
            Family("direct", 900, 6000, gen_direct, run_direct)]
