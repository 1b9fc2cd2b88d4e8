"""C17: the shell reports every failure as a result."""

import os
import shlex

from ..core import Family, Inconclusive, Violation
from ..hostside import drop
from ..world import Commands, build, gen_tree, gen_view, make_view, q

from sandfs import MemoryStorageAdapter, SandboxShell, VirtualFileSystem
from sandfs.exceptions import SandboxError
from sandfs.shell import CommandResult

RULE = ("Cases: (fuzz) mutated and ill-formed command text against trees with protected nodes, failing providers and failing storage; "
        "(certain) commands that cannot succeed in the given tree; (replay) histories of single commands run once in full and once "
        "without the commands that failed, compared output by output and tree by tree; (hostfail) host programs that cannot be started or fail. Every result's type, exit code and error text "
        "is judged; observed: distinct (command, outcome) pairs.")
ASSUMPTIONS = ["registered commands and providers raise ordinary exceptions (not interpreter exits)",
               "host commands are replaced by stand-ins outside the hostfail cases", "a failing command with several operands may have handled the earlier ones"]
REQUIRE = {"results judged": 25000, "failures reported": 8000, "successes": 4000, "certain failures": 4000, "replayed commands": 6000,
           "failed commands left out": 2000, "failing storage reached": 300, "failing provider reached": 300, "usable afterwards": 2000, "one bad operand among several": 100,
           "host failures judged": 500, "results that cannot be taken over": 400}
QUICK_TIMES = 4

NOISE = ["'", '"', "\\", "|", ">", "<", ">>", "||", "|&", "$", "${", "}", "$(x)", "`", ";", "&&", "&", "\t", "  ", "(", ")", "[", "]", "*", "?", "~",
         "-", "--", "-n", "-c", "-r", "=", "A=", "0", "-1", "99999999999999999999999", "\x00", "\x1b", "\ud800", "é", "\u2028", "\n", "\r", "!", "#",
         "..", "/", "//", "../../../..", "\ufdd0", "%s", "%", "{", "\x0b", "\ufeff"]
PIECES = ["cat", "ls", "head -n", "tail -c", "wc -l", "grep -e", "rg -e", "search -e", "find -name", "find -type", "stat", "tree", "touch", "mkdir",
          "rm -r", "cp -r", "mv", "write", "append", "echo", "printf", "python", "python3 -c", "cd", "help", "pwd", "A=1", "nosuch", "boom", "odd",
          "'(unclosed", "'['", "'*'", "'(?P<x'", "x{", "/pf", "/pd", "/pd/x", "/st", "/st/a", "/st/new", "/@search?q=tok", "/@search?q=(&regex=1",
          "/@search?", "/@search", "> /st/w", ">> /pf", "< /pf", "< /pd", "> /", "> /pd/y", "| cat", "| head -n x", "'%s %d'", "%s", "abc", "-5"]
SNIPPETS = ["print(1)", "1/0", "print(", "vfs.read_file('/nope')", "vfs.write_file('/py', 'x')", "undefined", "raise Boom",
            "f = lambda: f()\nf()".replace("\n", ";"), "x" * 50, "print('a' * 10)", "vfs.remove('/', recursive=True)", "fs.read_file('/pf')",
            "\x00", "import os", "open('/etc/passwd')", "assert False", "[][1]", "{}['k']", "int('z')", "print(len(5))"]


class Broken(MemoryStorageAdapter):
    """Storage that fails on request, with various exception types."""

    def __init__(self, initial, kind):
        super().__init__(initial)
        self.kind, self.armed, self.hits = kind, False, 0

    def _fail(self):
        if self.armed:
            self.hits += 1
            raise {"os": OSError, "rt": RuntimeError, "key": KeyError, "val": ValueError, "bare": Exception, "perm": PermissionError}[self.kind](
                *([] if self.kind == "bare" else ["storage down"]))

    def write(self, path, content, *, version):
        self._fail()
        return super().write(path, content, version=version)

    def delete(self, path):
        self._fail()
        return super().delete(path)


def setup_worker(scratch, rank):
    drop(scratch, rank)


def make(case):
    vfs = build(case["nodes"])
    hits = {"prov": 0}

    def bad(ctx):
        hits["prov"] += 1
        raise {"rt": RuntimeError("provider down"), "bare": Exception(), "key": KeyError("k")}[case["bad"]]

    vfs.mount_file("/pf", bad)
    vfs.mount_directory("/pd", bad)
    store = Broken({"a": "stored tok901z\n", "d/b": "deep tok902z"}, case["storage"])
    vfs.mount_storage("/st", store)
    store.armed = case["armed"]
    if case.get("index"):
        try:
            vfs.enable_full_text_index()
        except SandboxError:
            pass
    if case.get("search"):
        vfs.enable_search_view()
    shell = SandboxShell(vfs, view=make_view(case["view"]) if case["view"] else None, env={"E": "val"},
                         max_output_bytes=case.get("limit"), allowed_commands=case.get("allow"))
    stub = lambda args, ctx: CommandResult(stdout="host stand-in\n")  # noqa: E731
    for name in ("host", "bash", "sh"):
        shell.register_command(name, stub)

    def boom(args):
        raise {"0": ValueError, "1": Exception, "2": KeyError, "3": SandboxError, "4": RecursionError, "5": StopIteration}[str(len(args) % 6)]()

    shell.register_command("boom", boom)
    shell.register_command("odd", lambda args: [None, 7, "", ["x"]][len(args) % 4])
    return vfs, shell, store, hits


def judge(shell, command, obs):
    result = shell.exec(command)
    obs.ev("results judged")
    if not isinstance(result, CommandResult) or not isinstance(result.stdout, str) or not isinstance(result.stderr, str) \
            or isinstance(result.exit_code, bool) or not isinstance(result.exit_code, int):
        raise Violation(f"{command!r} returned {result!r}, not a command result")
    obs.state(command, result.exit_code, result.stderr[:80])
    if result.exit_code != 0:
        obs.ev("failures reported")
        if not result.stderr.strip():
            raise Violation(f"{command!r} failed with exit code {result.exit_code} but no error message")
    else:
        obs.ev("successes")
        if result.stderr:
            raise Violation(f"{command!r} gave error text {result.stderr!r} with exit code 0")
    return result


def base(rng, tier, *, view=0.3, armed=0.5):
    nodes = gen_tree(rng, twins=0.25, policies={"none": 6, "ur": 1, "ro": 1, "ao": 1, "cls": 1}, size=(5, 10))
    return {"nodes": nodes, "view": gen_view(rng, nodes) if rng.random() < view else {}, "storage": rng.choice(["os", "rt", "key", "val", "bare", "perm"]),
            "armed": rng.random() < armed, "bad": rng.choice(["rt", "bare", "key"]), "search": rng.random() < 0.5, "index": rng.random() < 0.3}


# -- fuzz ----------------------------------------------------------------------------------------------------
def gen_fuzz(rng, index, tier):
    case = base(rng, tier)
    nodes = [[p, k] for p, k, *_ in case["nodes"]] + [["/pf", "f"], ["/pd", "d"], ["/st", "d"], ["/st/a", "f"], ["/st/d", "d"], ["/pd/x", "f"]]
    commands = Commands(rng, nodes, search="/@search" if case["search"] else None)
    if rng.random() < 0.15:
        case["limit"] = rng.choice([0, 10, 200])
    if rng.random() < 0.1:
        case["allow"] = rng.sample(["cat", "ls", "echo", "grep", "wc"], 3)
    ops = []
    for _ in range(rng.randint(6, 14) if tier == "quick" else rng.randint(6, 30)):
        roll = rng.random()
        if roll < 0.3:
            text = commands.one()
        elif roll < 0.75:
            text = list(commands.one())
            for _ in range(rng.randint(1, 3)):
                at = rng.randint(0, len(text))
                action = rng.random()
                if action < 0.6:
                    text[at:at] = rng.choice(NOISE)
                elif action < 0.8 and text:
                    del text[at:at + rng.randint(1, 4)]
                else:
                    text[at:at] = " " + rng.choice(PIECES) + " "
            text = "".join(text)
        elif roll < 0.92:
            text = " ".join(rng.choice(PIECES) if rng.random() < 0.75 else rng.choice(NOISE) for _ in range(rng.randint(1, 6)))
        else:
            text = f"{rng.choice(['python', 'python3', 'python -c', 'python3 -c'])} {q(rng.choice(SNIPPETS))}"
        ops.append(text)
    case["ops"] = ops
    return case


def run_fuzz(case, obs):
    vfs, shell, store, hits = make(case)
    for command in case["ops"]:
        before = (store.hits, hits["prov"])
        result = judge(shell, command, obs)
        if store.hits > before[0]:
            obs.ev("failing storage reached")
        if hits["prov"] > before[1]:
            obs.ev("failing provider reached")
            if case["bad"] == "bare" and result.exit_code != 0 and not result.stderr.strip():
                raise Violation(f"{command!r} failed silently")
    usable(vfs, shell, case, obs)


def usable(vfs, shell, case, obs):
    """The tree and the shell still work."""
    fresh = SandboxShell(vfs)
    vfs.cd("/")
    try:
        vfs.write_file("/zz-probe", "probe text\n")
    except SandboxError:
        return  # a generated policy or leftover may forbid it
    for one in (fresh, shell):
        if one is shell and (case["view"] or case.get("limit") is not None or case.get("allow") is not None):
            continue
        result = one.exec("cat /zz-probe")
        if (result.exit_code, result.stdout) != (0, "probe text\n"):
            raise Violation(f"after the failures, cat of a fresh file gives {result!r}")
        result = one.exec("echo -n more >> /zz-probe\nwc -c /zz-probe")
        if result.exit_code != 0:
            raise Violation(f"after the failures, appending gives {result!r}")
        vfs.write_file("/zz-probe", "probe text\n")
    obs.ev("usable afterwards")


# -- commands that cannot succeed --------------------------------------------------------------------------------
def gen_certain(rng, index, tier):
    case = base(rng, tier, view=0, armed=1)
    case["armed"] = True
    nodes = case["nodes"]
    files = [n[0] for n in nodes if n[1] == "f"]
    dirs = [n[0] for n in nodes if n[1] == "d"]
    unreadable = [n[0] for n in nodes if n[1] == "f" and n[3].get("readable") is False]
    locked = [n[0] for n in nodes if n[1] == "f" and n[3].get("writable") is False]
    open_files = [n[0] for n in nodes if n[1] == "f" and n[3].get("readable") is not False]
    f = rng.choice(files) if files else None
    d = rng.choice(dirs)
    m = rng.choice(["/missing", d + "/nope", "nope", "/st/nope", (f or d) + "/below", "../missing"])
    ops = [f"{c} {q(m)}" for c in ("cat", "head", "tail", "wc", "wc -l", "stat", "ls", "ls -l", "rm", "rm -r", "cd", "tree", "find", "grep tok", "rg tok",
                                   "search tok", "grep -r tok", "head -n 3", "tail -c 2")]
    ops += [f"cat < {q(m)}", f"cp {q(m)} /zz1", f"mv {q(m)} /zz2", f"cp -r {q(m)} /zz3", f"echo a | cat {q(m)}", f"cat {q(m)} | wc", f"cat - {q(m)}",
            f"grep tok < {q(m)} > /zz4"]
    ops += ["nosuch", "nosuch arg", "echo a | nosuch", "A=1 nosuch", "echo 'unclosed", 'echo "unclosed', "echo a |", "| cat", "cat <", "echo >", "echo >>",
            "echo a | | cat", "> /zz5", "A=1 > /zz6", "echo a | B=2", "echo \\", "$NOPE", "''", "ls -Z", "ls -a", "ls --all", "find -name", "find -type",
            "find -type x", "find -size 1", "head -n", "head -n x /", "head -c", "tail -n ''", "tail -c 1.5", "cd", "cd / /", "touch", "mkdir", "mkdir -p",
            "rm", "rm -r", "cp", "cp a", "cp a b c", "mv", "mv a", "write", "append", "append /x", "stat", "grep", "grep -i", "rg", "search", "search -i",
            "grep -e '(' /", "rg -e '[' /", "search -e '*a' /", "echo a | grep -e '('", "python", "python3", "python 1/0", "python 'import os'",
            "python nope", "python '('", "boom", "boom a", "boom a b c", "boom a b c d e", "echo a | boom", "cat /pf", "wc /pf", "head /pf", "stat /pf",
            "cat < /pf", "ls /pd", "tree /pd", "find /pd", "cat /pd/x", "write /pd/x y", "touch /pd/x", "mkdir /pd/x", "rm /pd/x", "tree /",
            "grep tok /pf", "append /pf more", "echo more >> /pf", "write /st/a new", "append /st/a new", "echo x > /st/new", "rm /st/a", "rm -r /st/d",
            "mv /st/a /out", "cp /st/a /st/c", "echo x >> /st/a", "touch /", "rm /", "rm -r /", "mkdir /st", "echo a > /", "write / x",
            f"mkdir {q(d)}", f"rm {q(d)}" if any(n[0].startswith(d + "/") for n in nodes) else "rm /", f"cat {q(d)}", f"cat < {q(d)}", f"echo x > {q(d)}",
            f"write {q(d)} x", f"touch {q(d)}", f"cp {q(d)} /zz7", f"mv {q(d)} {q(d + '/in')}", f"head {q(d)}", f"wc {q(d)}", "mv / /zz8", "cp -r / /zz9"]
    if case["search"]:
        found = rng.choice(["/@search?q=tok", "/@search?q=tok" + (f or "/x"), "/@search?q=x", "/@search?q=", "/@search?q=a&i=1"])
        ops += [f"{c} {q(found)}" for c in ("rm", "rm -r", "touch", "mkdir")]
        ops += [f"mkdir -p {q(found)}", "rm -r /@search", "touch /@search", "mkdir /@search", "write /@search x", "echo x > /@search", "mv /@search /zz15"]
        ops += [f"cp {q(found)} /zz12", f"cp -r {q(found)} /zz13", f"mv {q(found)} /zz14", f"write {q(found)} x", f"append {q(found)} x",
                f"echo x > {q(found)}", f"echo x >> {q(found)}"]
        if open_files:
            ops += [f"cp {q(open_files[0])} {q(found)}", f"mv {q(open_files[0])} {q(found)}"]
    if f:
        ops += [f"cd {q(f)}", f"mkdir {q(f)}", f"mkdir -p {q(f + '/x')}", f"touch {q(f + '/x')}", f"echo a > {q(f + '/x')}", f"write {q(f + '/x')} y"]
    for path in unreadable:
        ops += [f"cat {q(path)}", f"head {q(path)}", f"tail {q(path)}", f"wc {q(path)}", f"cat < {q(path)}", f"cp {q(path)} /zz10", f"ls {q(path)}"]
    for path in locked:
        ops += [f"write {q(path)} x", f"append {q(path)} x", f"echo x > {q(path)}", f"echo x >> {q(path)}", f"rm {q(path)}", f"mv {q(path)} /zz11",
                f"touch {q(path)}"]
    # one bad operand among several
    for c in ("cat", "head", "tail -n 2", "wc", "wc -l", "ls", "ls -l", "find", "find -type f", "grep tok", "grep -r tok", "rg -n tok", "search tok"):
        bad = [m, m, "/nowhere/at/all"]
        if c.split()[0] in ("cat", "head", "tail", "wc"):
            bad += ["/pf", d] + unreadable
            good = open_files + ["/st/a"]
        else:
            good = open_files + ["/st", "/st/a", "/st/d"]
            bad += (["/pd"] if c != "search tok" else []) + (["/pf"] if c.split()[0] in ("grep", "rg") else []) + (unreadable if c.startswith("ls") else [])
        for _ in range(2):
            operands = [rng.choice(good) for _ in range(rng.randint(1, 2))]
            operands.insert(rng.randint(0, len(operands)), rng.choice(bad))
            ops.append(f"{c} {' '.join(map(q, operands))}")
    for c, bad in (("touch", [d, "/pd/x"] + ([f + "/below"] if f else []) + locked), ("mkdir", [d, "/st", "/none/such"] + ([f] if f else [])),
                   ("mkdir -p", ["/pd/x"] + ([f, f + "/in"] if f else [])), ("rm", [m, "/st/a"] + locked), ("rm -r", [m, "/st/a"] + locked)):
        operands = [f"/zz{rng.randint(20, 24)}" if not c.startswith("rm") else "/zz20"]
        operands.insert(rng.randint(0, 1), rng.choice(bad))
        ops.append([f"{c} {' '.join(map(q, operands))}"])
    rng.shuffle(ops)
    case["ops"] = ops[: 60 if tier == "quick" else 120]
    return case


def run_certain(case, obs):
    vfs, shell, store, hits = make(case)
    before = digest_real_safe(vfs)
    env = dict(shell.env)
    for command in case["ops"]:
        partial = isinstance(command, list)  # an earlier operand may have been handled
        if partial:
            command = command[0]
        counts = (store.hits, hits["prov"])
        result = judge(shell, command, obs)
        if result.exit_code == 0:
            raise Violation(f"{command!r} reported success (printing {result.stdout!r}); it cannot succeed here")
        obs.ev("certain failures")
        obs.ev("failing storage reached", int(store.hits > counts[0]))
        obs.ev("failing provider reached", int(hits["prov"] > counts[1]))
        after = digest_real_safe(vfs)
        if partial:
            known = {p: r for p, r in after.items() if not p.startswith("/zz2")}
            if known != {p: r for p, r in before.items() if not p.startswith("/zz2")}:
                raise Violation(f"{command!r} failed and changed nodes other than its operands")
            before = after
            obs.ev("one bad operand among several")
        if after != before:
            changed = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
            raise Violation(f"{command!r} failed ({result.stderr!r}) but changed {changed}")
        if shell.env != env or vfs.pwd() != "/":
            raise Violation(f"{command!r} failed but left variables {shell.env} and directory {vfs.pwd()}")


def digest_real_safe(vfs):
    """State of the nodes that can be walked without the failing directory provider."""
    state = {}

    def walk(node):
        state[str(node.path())] = (hasattr(node, "children"), None if hasattr(node, "children") else getattr(node, "_content", None), node.version,
                                   str(node.policy), node.created_at, node.modified_at)
        for child in list(getattr(node, "children", {}).values()):
            walk(child)

    walk(vfs.get_node("/"))
    return state


# -- as if the failed command had not been entered ---------------------------------------------------------------
def gen_replay(rng, index, tier):
    case = base(rng, tier, view=0.25, armed=0.4)
    nodes = [[p, k] for p, k, *_ in case["nodes"]] + [["/pf", "f"], ["/st", "d"], ["/st/a", "f"], ["/st/d", "d"]]
    commands = Commands(rng, nodes, search="/@search" if case["search"] else None)
    ops = []
    while len(ops) < (14 if tier == "quick" else 35):
        roll = rng.random()
        if roll < 0.75:
            text = commands.one()
        elif roll < 0.85:
            text = f"V{rng.randrange(3)}={rng.choice(['x', '/st/a', 'two'])}" + rng.choice(["", " nosuch", " echo $V0"])
        elif roll < 0.93:
            text = rng.choice(["nosuch", "echo 'x", "head -n z", "cat /pf", "cd /nope", "echo a > /", "ls -q", "boom", "echo $V0 $V1 $V2", "pwd", "ls /pd",
                               "cat /pd/x", "cd /pd", "echo a |", "find /pd", "cat < /nope", "search -e '('"])
        else:
            text = f"python {q(rng.choice(SNIPPETS))}"
        if not single(text):
            continue
        ops.append(text)
    case["ops"] = ops
    return case


def single(text):
    """One stage, one line, at most one operand that is changed."""
    if "\n" in text or "stat" in text:
        return False
    try:
        words = shlex.split(text.replace("|", " | "))
    except ValueError:
        return True
    if "|" in words and text != "echo a |":
        return False
    if words and words[0] in ("rm", "touch", "mkdir"):
        return len([w for w in words[1:] if not w.startswith("-")]) == 1 and not any(c in text for c in "*?[") and not ("-r" in text)
    return True


def run_replay(case, obs):
    outcomes = []
    vfs, shell, store, hits = make(case)
    for command in case["ops"]:
        if any(word in command for word in ("python",)) and "1/0" not in command and "print(1)" not in command and "import" not in command:
            # snippets that change the tree before failing are their own matter
            if any(part in command for part in ("write_file", "remove")):
                outcomes.append(None)
                continue
        before = store.hits
        result = judge(shell, command, obs)
        outcomes.append((result.exit_code, result.stdout, result.stderr))
        obs.ev("failing storage reached", int(store.hits > before))
        if result.exit_code and "rm" == command.split(" ")[0] and "-r" in command:
            raise Inconclusive("partial removal")
    twin, shell2, store2, _ = make(case)
    for command, outcome in zip(case["ops"], outcomes):
        if outcome is None:
            continue
        if outcome[0] != 0:
            obs.ev("failed commands left out")
            continue
        result = shell2.exec(command)
        obs.ev("replayed commands")
        if (result.exit_code, result.stdout) != outcome[:2]:
            raise Violation(f"{command!r} gave {outcome!r} after failed commands, but {(result.exit_code, result.stdout, result.stderr)!r} when they "
                            "had not been entered")
    real, want = digest_plain(vfs), digest_plain(twin)
    if real != want:
        changed = sorted(p for p in set(real) | set(want) if real.get(p) != want.get(p))
        raise Violation("failed commands left traces at " + ", ".join(f"{p}: {real.get(p)!r} instead of {want.get(p)!r}" for p in changed[:3]))
    if vfs.pwd() != twin.pwd() or shell.env != shell2.env:
        raise Violation(f"failed commands changed directory or variables: {vfs.pwd()} {shell.env}, expected {twin.pwd()} {shell2.env}")
    entries = lambda s: {str(k): (e.content, e.version) for k, e in s.list().items()}  # noqa: E731
    if entries(store) != entries(store2):
        raise Violation(f"failed commands changed storage: {entries(store)} instead of {entries(store2)}")


# -- host programs that cannot be started or fail ------------------------------------------------------------------
HOSTFAIL = ["host ./tool", "host /tool", "host ./sub", "host /sub", "host ./missing", "host /missing", "host no-such-program-here", "host ''", "host -C /nope true",
            "host -C /tool true", "host -p /nope true", "host -C", "host", "host --", "host -C /sub ./tool", "host ./sub/tool", "bash -c 'exit 3'",
            "sh -c 'exit 1'", "bash -c 'kill -9 $$'", "sh -c no-such-program-here", "host false", "host sh -c 'exit 7'", "bash -c './tool'", "host sh ./missing",
            "bash -c \"printf '\\\\377\\\\376'; exit 2\"", "echo in | host ./tool", "host ./tool < /tool", "host ./tool > /out", "A=1 host ./tool", "host ./tool | cat",
            "host /etc", "host /etc/passwd", "host ./x\\ y", "host 'x y'", "host ./tool --version", "host -C sub ./inner", "bash -c 'cd /nowhere-at-all'"]
FALLBACK = ["./tool", "./sub", "/sub", "/tool", "no-such-program-here", "./missing arg", "false", "echo a | ./tool", "./tool > /out", "ls --no-such-option"]


def gen_hostfail(rng, index, tier):
    fallback = rng.random() < 0.5
    pool = HOSTFAIL + (FALLBACK * 2 if fallback else [])
    return {"fallback": fallback, "ops": [rng.choice(pool) for _ in range(rng.randint(2, 5))], "cwd": rng.choice(["/", "/", "/sub"]), "body": rng.choice(["", "x\n", "echo hi\n", "\x7fELF"])}


def run_hostfail(case, obs):
    vfs = VirtualFileSystem()
    vfs.write_file("/tool", case["body"])
    vfs.write_file("/sub/inner", "text")
    vfs.write_file("/x y", "text")
    vfs.cd(case["cwd"])
    shell = SandboxShell(vfs, host_fallback=case["fallback"])
    before, names = digest_real_safe(vfs), sorted(os.listdir("."))
    for command in case["ops"]:
        result = shell.exec(command)
        obs.ev("results judged")
        obs.ev("host failures judged")
        obs.state("host", command, result.exit_code, case["cwd"], case["fallback"])
        if not isinstance(result, CommandResult) or not isinstance(result.stdout, str) or not isinstance(result.stderr, str) \
                or isinstance(result.exit_code, bool) or not isinstance(result.exit_code, int):
            raise Violation(f"{command!r} returned {result!r}, not a command result")
        if result.exit_code == 0:
            raise Violation(f"{command!r} in {case['cwd']} reported success: {result!r}; the program cannot be run or fails")
        if digest_real_safe(vfs) != before or vfs.pwd() != case["cwd"]:
            raise Violation(f"{command!r} failed ({result.stderr!r}) but changed the sandbox")
        if sorted(os.listdir(".")) != names:
            raise Violation(f"{command!r} left host files: {sorted(os.listdir('.'))}")
        check = shell.exec("cat '/x y'")
        if (check.exit_code, check.stdout) != (0, "text"):
            raise Violation(f"after {command!r} the shell gives {check!r}")


# -- results of host commands that cannot be taken over -------------------------------------------------------------------------
ERRORS = [OSError("disk gone"), OSError(), OSError(28, "No space left"), OSError(0, "none"), PermissionError(), PermissionError("no"), FileNotFoundError(), TimeoutError(),
          RuntimeError(), RuntimeError("down"), KeyError("k"), ValueError("version"), Exception(), NotImplementedError()]


def gen_takeover(rng, index, tier):
    return {"error": rng.randrange(len(ERRORS)), "where": rng.choice(["write", "write", "delete", "read", "dirprov"]), "fallback": rng.random() < 0.4,
            "how": rng.choice(["sh", "bash", "host", "pipe", "multi"]), "op": rng.choice(["change", "remove", "new"]), "extra": rng.random() < 0.4}


def run_takeover(case, obs):
    error = ERRORS[case["error"]]

    class Failing(MemoryStorageAdapter):
        armed = False

        def write(self, *args, **kwargs):
            if self.armed and case["where"] == "write":
                raise error
            return super().write(*args, **kwargs)

        def delete(self, path):
            if self.armed and case["where"] == "delete":
                raise error
            return super().delete(path)

    def fail(ctx):
        if store.armed:
            raise error
        return "provided" if case["where"] == "read" else {}

    vfs = VirtualFileSystem()
    store = Failing({"a": "x\n"})
    vfs.mount_storage("/m", store)
    vfs.write_file("/plain", "text")
    if case["where"] == "read":
        vfs.mount_file("/zz/provided", fail)
    shell = SandboxShell(vfs, host_fallback=case["fallback"])
    before = digest_real_safe(vfs) if case["where"] != "dirprov" else None
    if case["where"] == "read":
        store.armed = True
        before = digest_real_safe(vfs)
    store.armed = True
    if case["where"] == "dirprov":
        vfs.mount_directory("/zz", fail)
    entries = {path: (entry.content, entry.version) for path, entry in MemoryStorageAdapter.list(store).items()}
    script = {"change": "echo y > m/a", "remove": "rm m/a", "new": "echo z > m/new"}[case["op"]]
    if case["fallback"]:
        shell.commands.pop("sh")
    command = {"sh": f"sh -c '{script}'", "bash": f"bash -c '{script}'", "host": f"host -p / sh -c '{script}'", "pipe": f"echo in | sh -c '{script}'",
               "multi": f"echo one\nsh -c '{script}'\nwrite /never x"}[case["how"]]
    certain = case["where"] in ("read", "dirprov") or (case["where"] == "delete") == (case["op"] == "remove")
    result = shell.exec(command)
    obs.ev("results judged")
    obs.state("takeover", case["error"], case["where"], case["how"], case["op"], result.exit_code)
    if not isinstance(result, CommandResult) or not isinstance(result.stdout, str) or not isinstance(result.stderr, str) \
            or isinstance(result.exit_code, bool) or not isinstance(result.exit_code, int):
        raise Violation(f"{command!r} over failing storage returned {result!r}, not a command result")
    if not certain:
        if result.exit_code != 0:
            raise Violation(f"{command!r} gave {result!r}; nothing fails")
        return
    obs.ev("results that cannot be taken over")
    if result.exit_code == 0 or not result.stderr:
        raise Violation(f"{command!r} whose result cannot be taken over ({case['where']} raises {error!r}) gave {result!r}")
    if vfs.exists("/never"):
        raise Violation(f"{command!r} went on after its second line failed")
    if before is not None and digest_real_safe(vfs) != before:
        raise Violation(f"{command!r} failed ({result.stderr!r}) but changed the sandbox")
    if {path: (entry.content, entry.version) for path, entry in MemoryStorageAdapter.list(store).items()} != entries:
        raise Violation(f"{command!r} failed ({result.stderr!r}) but changed the storage")
    store.armed = False
    check = shell.exec("cat /plain")
    again = shell.exec(f"bash -c '{script}'")
    if (check.exit_code, check.stdout) != (0, "text") or again.exit_code:
        raise Violation(f"after {command!r} failed the shell gives {check!r}, and the command with the failure gone {again!r}")


def digest_plain(vfs):
    return {path: row[:4] for path, row in digest_real_safe(vfs).items()}


def families():
    return [
        Family("fuzz", 2500, 30000, gen_fuzz, run_fuzz),
        Family("certain", 500, 4000, gen_certain, run_certain),
        Family("replay", 1200, 14000, gen_replay, run_replay),
        Family("hostfail", 250, 3000, gen_hostfail, run_hostfail),
        Family("takeover", 250, 2500, gen_takeover, run_takeover),
    ]


