"""C18: agent mode: the allow-list and the output limit always hold."""

import functools

from ..core import Family, Violation
from ..gen import TEXTS, text
from ..hostside import audit, drop
from ..sim import digest_real
from ..world import Commands, build, gen_tree, q

from sandfs import SandboxShell, VirtualFileSystem
from sandfs.shell import CommandResult

RULE = ("Every command handler of the shell is wrapped by a recorder and process creation is audited while scripts with allowed and "
        "disallowed names (in every pipeline position, through variables and quotes, with host fallback on and off) are executed; the set "
        "and order of handlers that ran, the processes started and the verdict of each script are compared with the allow-list. For "
        "output limits the size of every result is measured and results within the limit are compared with those of an unlimited twin. "
        "Counted: distinct (allow-list, script) and (limit, command, size) combinations.")
ASSUMPTIONS = ["an allowed host bridge (host, bash, sh) may run what its arguments say", "whether an intermediate pipeline result beyond the "
               "limit fails the pipeline is not judged"]
REQUIRE = {"scripts judged": 8000, "handlers seen": 2500, "refused commands": 5000, "empty allow-lists": 300, "host fallback on": 1500,
           "allowed host processes seen": 40, "limited results": 20000, "over the limit": 4000, "within the limit": 9000, "at the limit exactly": 1000}
QUICK_TIMES = 2

SAFE = ["echo", "pwd", "cat", "wc", "help", "mark", "printf"]
BUILTIN = ["ls", "cd", "touch", "mkdir", "rm", "cp", "mv", "tree", "write", "append", "grep", "rg", "search", "python", "python3", "host", "bash", "sh",
           "stat", "head", "tail", "find", "spare"]
FOREIGN = ["true", "id", "uname", "printenv", "Echo", "ECHO", "/bin/true", "./x", "echo2", "ech", "nosuch", "cat ", " cat", "host2", "env", "touch2"]
ARGS = {"ls": "/", "cd": "/d", "touch": "/t1", "mkdir": "/m1", "rm": "/f", "cp": "/f /f2", "mv": "/f /f3", "tree": "/", "write": "/w1 x",
        "append": "/f x", "grep": "a /f", "rg": "a /", "search": "a /", "python": "'vfs.write_file(\"/py\", \"x\")'", "python3": "'print(1)'",
        "host": "true", "bash": "-c true", "sh": "-c true", "stat": "/f", "head": "/f", "tail": "/f", "find": "/", "cat": "", "wc": "-l",
        "echo": "hi", "printf": "x", "mark": "m"}


def setup_worker(scratch, rank):
    drop(scratch, rank)


def gen_allow(rng, index, tier):
    pool = SAFE + BUILTIN
    allow = rng.sample(pool, rng.randint(0, 5)) if rng.random() < 0.85 else []
    if rng.random() < 0.2:
        allow.append(rng.choice(["true", "uname", "id", "nosuch"]))
    fallback = rng.random() < 0.35
    ops = []
    for _ in range(rng.randint(3, 8)):
        lines = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            stages = []
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                roll = rng.random()
                good = [name for name in allow if name in SAFE]
                if roll < 0.65 and good:
                    name = rng.choice(good)
                elif roll < 0.8:
                    name = rng.choice(pool)
                else:
                    name = rng.choice(FOREIGN)
                stages.append([name, rng.choice(["b", "b", "s", "v", "p", "e"])])
            lines.append(stages)
        ops.append(lines)
    return {"allow": allow, "form": rng.choice(["list", "tuple", "set", "gen", "dict"]), "fallback": fallback, "ops": ops}


def spell_name(name, style, number):
    """-> (assignment line or None, text of the command word)"""
    plain = name.strip() == name and " " not in name
    if style == "v" or (style == "p" and not plain):
        return f"N{number}={q(name)}", f'"$N{number}"' if not plain else f"$N{number}"
    if style == "s" or not plain:
        return None, "'" + name + "'"
    if style == "p":
        cut = max(1, len(name) // 2)
        return f"H{number}={q(name[:cut])}", f"${{H{number}}}'{name[cut:]}'"
    if style == "e" and len(name) > 1:
        return None, name[0] + '""' + "\\" + name[1:]
    return None, name


def run_allow(case, obs):
    vfs = VirtualFileSystem()
    vfs.write_file("/f", "a\nb\n")
    vfs.mkdir("/d")
    allow = list(case["allow"])
    given = {"list": list, "tuple": tuple, "set": set, "gen": iter, "dict": dict.fromkeys}[case["form"]](allow)
    shell = SandboxShell(vfs, allowed_commands=given, host_fallback=case["fallback"])
    if not allow:
        obs.ev("empty allow-lists")
    if case["form"] == "list":
        given.append("touch")
        given.append("rm")
    elif case["form"] == "set":
        given.update(["touch", "rm", "id"])
    ran = []

    def spy(name, handler):
        def run(args, ctx):
            ran.append(name)
            return handler(args, ctx)
        return run

    shell.register_command("mark", lambda args, ctx: CommandResult(stdout=ctx.stdin + "m"))
    shell.register_command("spare", lambda args, ctx: CommandResult(stdout="spare"))
    for name, handler in list(shell.commands.items()):
        shell.register_command(name, spy(name, handler))
    hook = audit()
    for lines in case["ops"]:
        script, number = [], 0
        for stages in lines:
            bits = []
            for name, style in stages:
                number += 1
                setting, word = spell_name(name, style, number)
                if setting:
                    script.append(setting)
                bits.append(f"{word} {ARGS.get(name, '')}".rstrip())
            script.append(" | ".join(bits))
        command = "\n".join(script)
        ran.clear()
        before = digest_real(vfs)
        with hook:
            result = shell.exec(command)
        started = [event for event in hook.events if event[0] in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork", "os.spawn")]
        obs.ev("scripts judged")
        obs.state(tuple(allow), command, case["fallback"])
        obs.ev("handlers seen", len(ran))
        obs.ev("host fallback on", int(case["fallback"]))
        where = f"allow-list {allow} (host fallback {case['fallback']}), script {command!r}"
        for name in ran:
            if name not in allow:
                raise Violation(f"{where}: the handler of {name!r} ran")
        flat = [name for stages in lines for name, _ in stages]
        reached = []
        for name in flat:
            reached.append(name)
            if name not in allow:
                break
        bad = reached[-1] not in allow
        if bad:
            obs.ev("refused commands")
            if result.exit_code == 0 or not result.stderr:
                raise Violation(f"{where}: {reached[-1]!r} is not allowed but the result is {result!r}")
        builtin = [name for name in reached if name in allow and name in shell.commands]
        if ran != builtin[: len(ran)] or (all(name in SAFE for name in reached if name in allow) and ran != builtin):
            raise Violation(f"{where}: handlers {ran} ran, expected {builtin}")
        if not bad and all(name in SAFE for name in flat) and result.exit_code != 0:
            raise Violation(f"{where}: everything is allowed but the result is {result!r}")
        bridges = {"host", "bash", "sh", "ls"}
        may_start = [name for name in reached if name in allow and (name in bridges or (case["fallback"] and name not in shell.commands))]
        if started:
            obs.ev("allowed host processes seen", len(started))
            if len([e for e in started if e[0] == "subprocess.Popen"]) > len(may_start) or not may_start:
                raise Violation(f"{where}: processes were started: {started[:3]}")
        if not builtin and not may_start and digest_real(vfs) != before:
            raise Violation(f"{where}: nothing was allowed, but the tree changed")


# -- output limit ---------------------------------------------------------------------------------------------------
def gen_limit(rng, index, tier):
    texts = [rng.choice(TEXTS) if rng.random() < 0.4 else text(rng, big=rng.random() < 0.2) for _ in range(5)]
    nodes = gen_tree(rng, policies={"none": 8, "ur": 1, "ro": 1}, size=(4, 9))
    commands = Commands(rng, [[p, k] for p, k, *_ in nodes])
    ops = []
    for _ in range(rng.randint(5, 10)):
        roll = rng.random()
        k = rng.randrange(5)
        if roll < 0.45:
            ops.append(rng.choice([f"emit {k}", f"emit {k} | cat", f"both {k} {rng.randrange(5)}", f"fail {k} {rng.randrange(5)}",
                                   f"echo a | both {k} {rng.randrange(5)} | both {rng.randrange(5)} 0", f"cat /t{k}", f"emit {k}\nemit {rng.randrange(5)}",
                                   f"both 0 {k} | emit {rng.randrange(5)}", f"cat < /t{k}", f"head -n 2 /t{k}"]))
        elif roll < 0.6:
            long = rng.choice(["x", "é", "/y"]) * rng.choice([3, 30, 300])
            ops.append(rng.choice([f"cat /{long}", f"{long}", f"cat < /{long}", f"echo '{long}", f"ls -{long}", f"find -{long}", f"python {long}",
                                   f"grep -e '({long}' /t0", f"echo a > /t0/{long}", f"head -n {long}", f"rm /{long}", f"boom {long}", f"cd {long}"]))
        else:
            ops.append(commands.one())
    return {"nodes": nodes, "texts": texts, "ops": ops, "limits": [rng.choice([0, 1, 2, 7, 20, 64, 300, 5000])],
            "near": [rng.choice([-1, 0, 1]) for _ in range(len(ops))]}


def make_limited(case, limit):
    vfs = build(case["nodes"])
    for number, body in enumerate(case["texts"]):
        vfs.write_file(f"/t{number}", body)
    shell = SandboxShell(vfs, max_output_bytes=limit)
    texts = case["texts"]
    shell.register_command("emit", lambda args, ctx: texts[int(args[0])])
    shell.register_command("both", lambda args, ctx: CommandResult(stdout=texts[int(args[0])], stderr=texts[int(args[1])]))
    shell.register_command("fail", lambda args, ctx: CommandResult(stdout=texts[int(args[0])], stderr=texts[int(args[1])] or "e", exit_code=4))

    def boom(args):
        raise ValueError(" ".join(args))

    shell.register_command("boom", boom)
    stub = lambda args, ctx: CommandResult(stdout="host stand-in\n")  # noqa: E731
    for name in ("host", "bash", "sh"):
        shell.register_command(name, stub)
    return shell


def size(result):
    return len((result.stdout + result.stderr).encode("utf-8", "surrogatepass"))


@functools.lru_cache(maxsize=None)
def limit_error(limit):
    """The fixed error of this limit, learnt from results that must exceed it."""
    seen = set()
    for filler in ("a", "é", "long line\n"):
        shell = SandboxShell(VirtualFileSystem(), max_output_bytes=limit)
        shell.register_command("flood", lambda args, ctx: filler * (limit + 1))
        result = shell.exec("flood")
        if result.exit_code == 0 or result.stdout:
            raise Violation(f"limit {limit}: {limit + 1} or more bytes of output gave {(result.exit_code, result.stdout[:80], result.stderr[:80])}")
        seen.add(result.stderr)
    if len(seen) != 1 or len(next(iter(seen))) > 200:
        raise Violation(f"limit {limit}: the limit error depends on the output: {sorted(seen)!r}")
    return seen.pop()


def run_limit(case, obs):
    free = make_limited(case, None)
    wanted = []
    for command in case["ops"]:
        wanted.append(free.exec(command))
    # one shell per command so that a limited result cannot change what follows
    for command, near, number in zip(case["ops"], case["near"], range(len(wanted))):
        for limit in {*case["limits"], max(0, size(wanted[number]) + near)}:
            shell = make_limited(case, None)
            diverged = False
            for earlier in case["ops"][:number]:
                shell.exec(earlier)
            shell.max_output_bytes = limit
            want = wanted[number]
            got = shell.exec(command)
            obs.ev("limited results")
            obs.state(command, limit, size(want), got.exit_code)
            error = limit_error(limit)
            over = size(got) > limit
            is_error = got.exit_code != 0 and got.stdout == "" and got.stderr == error
            if over and not is_error:
                raise Violation(f"limit {limit}: {command!r} returned {size(got)} bytes: {got.stdout[:100]!r} {got.stderr[:100]!r}")
            if is_error:
                obs.ev("over the limit")
            if size(want) > limit and not is_error and command.count("|") == 0 and "\n" not in command:
                raise Violation(f"limit {limit}: {command!r} has {size(want)} bytes of output but gave {got!r} instead of the limit error")
            composite = "|" in command or ">" in command or "\n" in command
            if size(want) <= limit:
                if size(want) == limit:
                    obs.ev("at the limit exactly")
                if not composite or (not is_error):
                    obs.ev("within the limit")
                    if (got.stdout, got.stderr, got.exit_code) != (want.stdout, want.stderr, want.exit_code) and not diverged and not timed(command):
                        raise Violation(f"limit {limit}: {command!r} gave {got!r}, without a limit {want!r}")


def timed(command):
    return "stat" in command


def families():
    return [Family("allow", 2600, 26000, gen_allow, run_allow), Family("limit", 1600, 16000, gen_limit, run_limit)]


