"""C19: ordinary use never touches the host."""

import os
import sys
import time

from ..core import Family, Violation
from ..gen import Gen
from ..hostside import audit, disk, drop, import_noise, stamps
from ..world import Commands, build, gen_tree, gen_view, make_view, q
from .simcommon import run_history

from sandfs import MemoryStorageAdapter, NodePolicy, ProvidedNode, SandboxShell, SearchQuery, VirtualFileSystem
from sandfs.integrations import InboxRecorder
from sandfs.pyexec import PythonExecutor

RULE = ("Histories of filesystem operations, built-in and unknown shell commands, searches, snapshots and Python snippets over the provided "
        "names run in an unprivileged process with an interpreter audit hook switched on; any open, directory listing, creation, deletion, "
        "process, socket, working-directory or environment event is a violation, and a directory of bait files is compared before and "
        "after. Host-looking paths (existing host files included) are used as sandbox paths. Counted: distinct (command or operation) "
        "executions watched.")
ASSUMPTIONS = ["the interpreter's own module imports are not host effects", "reading file status without opening is not watched"]
REQUIRE = {"api operations watched": 15000, "commands watched": 20000, "unknown commands watched": 2500, "snippets watched": 2500,
           "host-looking paths": 5000, "host-looking variables": 1000, "audit hook self-tests": 1}
QUICK_TIMES = 1.5

HOME = LAID = None
BAIT = "bait-content-77"
SCRIPTS = ["bait/s.py", "s.py", "bait/__init__.py", "snippet"]
SECRETS = ["HOME", "USER", "LOGNAME", "PWD", "OLDPWD", "SHELL", "VERIF_SECRET", "HOSTNAME"]
TEMPS = ["sandfs-1/f", "sandfs-2", "tmpabcd1234/f", "sandfs/f", "sandfs_x/a", "x", "sandfs.log"]


def setup_worker(scratch, rank):
    global HOME
    HOME = drop(scratch, rank)
    sys.dont_write_bytecode = True
    import urllib.parse  # noqa: F401  (used lazily by the search view)
    import tempfile
    os.makedirs("bait/sub", exist_ok=True)
    tempfile.tempdir = os.path.join(HOME, "temp")
    os.environ["TMPDIR"] = tempfile.tempdir
    temps = [os.path.join(tempfile.tempdir, name) for name in TEMPS]
    for name in temps:
        os.makedirs(os.path.dirname(name), exist_ok=True)
    for name in ["bait/a.txt", "bait/sub/b.txt", "bait/s.sh", *temps]:
        with open(name, "w", encoding="utf-8") as out:
            out.write(BAIT)
    for name in SCRIPTS:
        with open(name, "w", encoding="utf-8") as out:
            out.write(f"print('{BAIT}')\n")
    global LAID
    LAID = {k: v[1] for k, v in disk("bait").items() if v[0] == "f"}
    for name in SECRETS:
        os.environ[name] = f"/{BAIT}/{name}"


class Watch:
    """Audits one block of ordinary use."""

    def __init__(self, obs, what):
        self.obs, self.what = obs, what

    def __enter__(self):
        self.before = (stamps(HOME), os.getcwd(), dict(os.environ), os.umask(0o022), time.tzname, tuple(sys.path), sys.getrecursionlimit())
        os.umask(self.before[3])
        self.hook = audit()
        self.hook.__enter__()
        return self

    def __exit__(self, kind, exc, trace):
        self.hook.__exit__()
        if kind is not None:
            return False
        effects = [event for event in self.hook.events if not noise(event)]
        if effects:
            raise Violation(f"{self.what} touched the host: {effects[:3]}")
        mask = os.umask(0o022)
        os.umask(mask)
        after = (stamps(HOME), os.getcwd(), dict(os.environ), mask, time.tzname, tuple(sys.path), sys.getrecursionlimit())
        for name, old, new in zip(("files", "working directory", "environment", "umask", "time zone", "module search path", "recursion limit"), self.before, after):
            if old != new:
                raise Violation(f"{self.what} changed the host {name}: {old!r} -> {new!r}"[:900])
        return False


def noise(event):
    # CPython itself looks for the source line of a syntax error under the compiled text's name ("<sandbox>").
    source = event[0] == "open" and str(event[1]).startswith("<") and str(event[1]).endswith(">")
    if not source and not import_noise(event):
        return False
    if event[0] == "open":
        mode = event[2] if len(event) > 2 else None
        flags = event[3] if len(event) > 3 and isinstance(event[3], int) else 0
        return (mode is None or set(str(mode)) <= set("rbt")) and not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    return True


def selftest(obs):
    """The monitor sees what it has to see."""
    hook = audit()
    with hook:
        with open("bait/a.txt", encoding="utf-8") as handle:
            handle.read()
        os.listdir("bait")
    if [event[0] for event in hook.events] != ["open", "os.listdir"]:
        raise Violation(f"the audit hook is not live: {hook.events}")
    obs.ev("audit hook self-tests")


def hostish(rng):
    return rng.choice(["/etc/passwd", "/etc/hostname", "../../../../etc/passwd", "~/.bashrc", "/tmp/x", "/proc/self/environ", "/dev/null", "@HOME/bait/a.txt",
                       "@HOME/bait", "@HOME/bait/s.py", "@HOME/s.py", "bait/s.py", "s.py", "@HOME/snippet", "@HOME/new.txt", "bait/a.txt", "./bait", "/root/.ssh/id", "/usr/bin/python3", ".", "..", "@HOME", "//etc//passwd",
                       "file:///etc/passwd", "http://localhost/", "/dev/tcp/127.0.0.1/80", "C:\\x", *("@HOME/temp/" + name for name in TEMPS)])


# -- the filesystem API -------------------------------------------------------------------------------------------
def gen_api(rng, index, tier):
    weights = dict(Gen.DEFAULT)
    weights.update({"meta": 1, "policy": 1, "mountf": 1, "snap": 1, "restore": 1, "search": 1})
    g = Gen(rng, weights=weights, fancy=0.3)
    if rng.random() < 0.5:
        g.add(["store", "mem", {"a": "x", "d/b": "y"}])
    return {"ops": g.run(25 if tier == "quick" else 60)}


def run_api(case, obs):
    if not obs.counts["audit hook self-tests"]:
        selftest(obs)
    with Watch(obs, f"a history of filesystem operations ({[op[0] for op in case['ops']]})"):
        run_history(case, obs)
    obs.ev("api operations watched", len(case["ops"]))
    obs.state(case["ops"])


def gen_calls(rng, index, tier):
    ops = []
    for _ in range(18 if tier == "quick" else 40):
        ops.append([rng.choice(["write", "append", "read", "mkdir", "touch", "rm", "cp", "mv", "ls", "tree", "walk", "exists", "cd", "glob", "search", "snap",
                                "restore", "mountf", "mountd", "store", "sync", "policy", "hook", "index", "view", "inbox", "stat", "iter", "isfile", "big"]),
                    hostish(rng) if rng.random() < 0.6 else rng.choice(["/a", "/a/b", "c", "/d/e/f", "/st/a"]), hostish(rng)])
    return {"ops": ops}


def run_calls(case, obs):
    def home(path):
        return path.replace("@HOME", HOME)

    vfs = VirtualFileSystem()
    snaps = [vfs.snapshot()]
    for name, a, b in case["ops"]:
        a, b = home(a), home(b)
        with Watch(obs, f"{name} {a} {b}"):
            try:
                {
                    "write": lambda: vfs.write_file(a, "text"), "append": lambda: vfs.append_file(a, "more"), "read": lambda: vfs.read_file(a),
                    "mkdir": lambda: vfs.mkdir(a, parents=True, exist_ok=True), "touch": lambda: vfs.touch(a),
                    "rm": lambda: vfs.remove(a, recursive=True), "cp": lambda: vfs.copy(a, b, recursive=True), "mv": lambda: vfs.move(a, b),
                    "ls": lambda: vfs.ls(a), "tree": lambda: vfs.tree(a), "walk": lambda: list(vfs.walk(a)), "exists": lambda: vfs.exists(a),
                    "cd": lambda: vfs.cd(a), "glob": lambda: vfs.glob(a + "*"), "search": lambda: vfs.search(SearchQuery("t")),
                    "snap": lambda: snaps.append(vfs.snapshot()), "restore": lambda: vfs.restore(snaps[-1]),
                    "mountf": lambda: vfs.mount_file(a, lambda ctx: "provided"),
                    "mountd": lambda: vfs.mount_directory(a, lambda ctx: {"k": ProvidedNode.file(content="x")}),
                    "store": lambda: vfs.mount_storage("/st", MemoryStorageAdapter({"a": "1"})), "sync": lambda: vfs.sync_storage("/st"),
                    "policy": lambda: vfs.set_policy(a, NodePolicy(readable=True)), "hook": lambda: vfs.register_path_hook(a, lambda event: None),
                    "index": lambda: vfs.enable_full_text_index(), "view": lambda: vfs.enable_search_view(),
                    "inbox": lambda: InboxRecorder().attach(vfs, a), "stat": lambda: vfs.get_node(a), "iter": lambda: list(vfs.iter_files(a)),
                    "isfile": lambda: (vfs.is_file(a), vfs.is_dir(a)), "big": lambda: vfs.write_file(a, "long line of text\n" * 60000),
                }[name]()
            except Exception:  # noqa: BLE001  (refusals are other properties' business)
                obs.ev("refused")
        obs.ev("api operations watched")
        obs.ev("host-looking paths")
        obs.state(name, a, b)
    bait = disk("bait")
    if {k: v[1] for k, v in bait.items() if v[0] == "f"} != LAID:
        raise Violation(f"bait files changed: {bait}")


# -- the shell ---------------------------------------------------------------------------------------------------------
UNKNOWN = ["true", "id", "uname -a", "env", "touch2 x", "/bin/ls", "/usr/bin/touch @HOME/made", "curl http://localhost", "vi", "sudo ls", "python2 -c 1", "perl -e 1",
           "awk 1", "sed s/a/b/", "sort", "uniq", "tee @HOME/made", "dd", "ln -s a b", "chmod 777 @HOME", "kill -9 1", "export A=1", "source x", "eval ls",
           "exec ls", "node", "git init", "tar c .", "./bait/a.txt", "bash2", "Bash", "HOST true"]
FLAGS = ["ls -a", "ls -la", "ls -R /", "ls --color", "ls -lh @HOME", "ls -1", "find / -exec rm", "find -delete", "find @HOME -newer x", "rm --no-preserve-root /",
         "cp -a @HOME /x", "mv -f @HOME/bait /y", "mkdir -m 777 @HOME/z", "touch -t 1 x", "cat -n @HOME/bait/a.txt", "wc -w @HOME/bait/a.txt",
         "grep --include=x y", "head -q x", "tail -f @HOME/bait/a.txt", "tree -L 1", "stat -c %s @HOME/bait", "rg --hidden x @HOME", "search --files x",
         "write --host x", "echo -e x", "printf -v x y", "pwd -P", "cd -", "cd ~", "help -m", "python --version", "python -m os", "python -c"]


HOSTVARS = ["TZ", "PATH", "HOME", "LANG", "LC_ALL", "LC_TIME", "PYTHONPATH", "PYTHONSTARTUP", "USER", "LOGNAME", "PWD", "OLDPWD", "TERM", "TMPDIR", "SHELL",
            "COLUMNS", "LINES", "http_proxy", "HTTPS_PROXY", "NO_COLOR", "EDITOR", "PAGER", "IFS", "LD_PRELOAD", "LD_LIBRARY_PATH", "UMASK", "DEBUG", "VERBOSE",
            "SANDFS_DEBUG", "SANDFS_ROOT", "VIRTUAL_ENV", "HOSTNAME", "PYTHONHASHSEED", "PYTHONIOENCODING"]
BUILTINS = ["ls", "cat", "cd", "pwd", "find", "grep", "rg", "search", "echo", "wc", "head", "tail", "rm", "cp", "mv", "python", "python3", "touch", "mkdir", "tree"]


def gen_shell(rng, index, tier):
    nodes = gen_tree(rng, policies={"none": 6, "ur": 1, "ro": 1, "cls": 1}, size=(5, 9))
    commands = Commands(rng, [[p, k] for p, k, *_ in nodes], search="/@search" if rng.random() < 0.5 else None)
    ops = []
    for _ in range(14 if tier == "quick" else 40):
        roll = rng.random()
        if roll < 0.45:
            ops.append(["c", commands.one()])
        elif roll < 0.6:
            text = rng.choice(UNKNOWN)
            ops.append(["u", rng.choice([text, text, f"echo x | {text}", f"A=1 {text}", f"{text} > /out", f"echo a\n{text}", f"{text} | {text}", f"  {text}"])])
        elif roll < 0.63:
            size = rng.choice([300, 5000, 70000, 300000])
            ops.append(["b", rng.choice([f"python 'print(\"x\" * {size})'", f"python 'vfs.write_file(\"/big\", \"y\\n\" * {size})'", "cat /big", "cat /big /big | wc",
                                         "grep y /big", "cat /big > /big2", "tail -n 3 /big", "search y /big", "cp /big /big3", "cat /big | boom"])])
        elif roll < 0.7:
            text = rng.choice(FLAGS + FLAGS[:6])
            ops.append(["f", rng.choice([text, text, f"echo x | {text}", f"cat /big | {text}", f"{text} | cat", f"{text} > /out", f"A=1 {text}", f"{text} < /big",
                                         f"TERM=x {text}", f"echo a\n{text}", f"  {text}  ", f"cd /\n{text} .", f"{text} /", f"echo | {text} | wc"])])
        elif roll < 0.76:
            name, value = rng.choice(HOSTVARS), q(rng.choice(["@HOME", "x", "", "UTC", "de_DE", "/nowhere", "0", "1"]))
            ops.append(["v", rng.choice([f"{name}={value}", f"{name}={value} ls", f"{name}={value} echo ${name}", f"{name}={value} nosuch", f"{name}={value} ls -l",
                                         f"{name}={value} python 'print(1)'", f"{name}={value} stat /", f"{name}={value}\nls -l | cat\n{name}="])])
        else:
            h, g = q(hostish(rng)), q(hostish(rng))
            ops.append(["h", rng.choice([f"cat {h}", f"ls {h}", f"ls -l {h}", f"find {h}", f"tree {h}", f"grep -r bait {h}", f"rg bait {h}", f"wc {h}",
                                         f"head {h}", f"tail {h}", f"stat {h}", f"cat < {h}", f"echo x > {h}", f"echo x >> {h}", f"touch {h}",
                                         f"mkdir -p {h}", f"rm -rf {h}", f"cp -r {h} {g}", f"mv {h} {g}", f"write {h} x", f"append {h} x", f"cd {h}",
                                         f"search bait {h}", f"echo {h}*", f"HOME={h} PATH={g} echo $HOME $PATH", f"PATH={h}", f"echo a | {h}", f"{h}",
                                         f"python {h}", f"python3 {h}", f"python -c {h}", f"python < {h}", f"python3 {h} {g}", f"python -m {h}", f"printf {h}",
                                         f"help {h}", f"pwd {h}", f"cat {h} {g} | wc", f"find / -name {h}", f"python @{h}",
                                         f"echo ${rng.choice(SECRETS)}", f"cd ${rng.choice(SECRETS)}", f"echo ${{{rng.choice(SECRETS)}}} ~", f"cat ${rng.choice(SECRETS)}/a", f"write /x ${rng.choice(SECRETS)}\ncat /x",
                                         f"X=${rng.choice(SECRETS)}\necho $X", "echo ~ ~root $$ $0 $? $(pwd)", "cd ~", "cd", "cat *", "ls ~ *", f"TMPDIR={h} cat {g}"])])
    return {"nodes": nodes, "ops": ops, "search": bool(commands.search), "index": rng.random() < 0.4,
            "view": gen_view(rng, nodes) if rng.random() < 0.2 else {}, "limit": rng.choice([None, None, 0, 3, 25, 400]),
            "allow": rng.sample(BUILTINS, 12) if rng.random() < 0.15 else None, "env": rng.random() < 0.5}


def run_shell(case, obs):
    vfs = build(case["nodes"])
    if case["index"]:
        vfs.enable_full_text_index()
    if case["search"]:
        vfs.enable_search_view()
    shell = SandboxShell(vfs, view=make_view(case["view"]) if case["view"] else None, max_output_bytes=case["limit"], allowed_commands=case["allow"],
                         env={"HOME": HOME, "PATH": "/bin:/usr/bin", "TMPDIR": HOME, "PYTHONPATH": HOME} if case["env"] else None)

    def boom(args, ctx):
        raise RuntimeError("custom command fails")

    shell.register_command("boom", boom)
    for kind, command in case["ops"]:
        command = command.replace("@HOME", HOME)
        with Watch(obs, f"command {command!r}"):
            result = shell.exec(command)
        if BAIT in result.stdout + result.stderr:
            raise Violation(f"{command!r} shows the content of a host file: {result!r}")
        if kind == "u":
            obs.ev("unknown commands watched")
            if result.exit_code == 0:
                raise Violation(f"{command!r} is no sandbox command but succeeded: {result!r}")
        if kind == "h":
            obs.ev("host-looking paths")
        if kind == "v":
            obs.ev("host-looking variables")
        obs.ev("commands watched")
        obs.state(command, result.exit_code)


# -- Python snippets ---------------------------------------------------------------------------------------------------------
LINES = ["print('x')", "vfs.write_file('/etc/passwd', 'x')", "print(vfs.read_file('/a'))", "vfs.mkdir('/tmp/z', parents=True)", "print(list(vfs.walk('/')))",
         "vfs.remove('/a')", "fs.append_file('/a', 'y')", "x = sorted(list(range(5)))", "print(sum(map(int, ['1', '2'])))", "vfs.cd('/')",
         "print(fs.tree('/'))", "snap = vfs.snapshot(); vfs.restore(snap)", "import os", "open('@HOME/bait/a.txt')", "open('@HOME/made', 'w')",
         "__import__('os').remove('@HOME/bait/a.txt')", "import subprocess; subprocess.run(['true'])", "from pathlib import Path", "exec('import os')",
         "eval('1')", "print(repr({1: 2}))", "for i in range(3): print(i)", "print(vfs.exists('@HOME/bait/a.txt'))", "vfs.copy('/a', '@HOME/c')",
         "print(vfs.ls('/'))", "breakpoint()", "input()", "exit()", "vars()", "globals()", "print(1/0)", "vfs.touch('@HOME/touched')",
         "print(vfs.glob('*'))"]


def gen_python(rng, index, tier):
    return {"ops": [[rng.choice(["shell", "api"]), [rng.choice(LINES) for _ in range(rng.randint(1, 4))]] for _ in range(8 if tier == "quick" else 20)]}


def run_python(case, obs):
    vfs = VirtualFileSystem()
    vfs.write_file("/a", "text\n")
    shell = SandboxShell(vfs)
    executor = PythonExecutor(vfs)
    for kind, lines in case["ops"]:
        code = "\n".join(lines).replace("@HOME", HOME)
        out = ""
        with Watch(obs, f"snippet {code!r}"):
            try:
                if kind == "shell":
                    out = shell.exec("python -c " + q(code.replace("\n", "; ")) if ":" not in code else "python " + q(lines[0].replace("@HOME", HOME))).stdout
                else:
                    out = executor.run(code).stdout
            except Exception:  # noqa: BLE001
                obs.ev("refused")
        if BAIT in out:
            raise Violation(f"snippet {code!r} shows the content of a host file")
        obs.ev("snippets watched")
        obs.state(code)


def families():
    return [
        Family("api", 700, 8000, gen_api, run_api),
        Family("calls", 700, 8000, gen_calls, run_calls),
        Family("shell", 2200, 16000, gen_shell, run_shell),
        Family("python", 500, 5000, gen_python, run_python),
    ]
