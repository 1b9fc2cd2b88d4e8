"""C25: custom commands are full citizens of the shell."""

import fnmatch
import functools

from ..core import Family, Violation
from ..sim import _short

from sandfs import SandboxShell, VirtualFileSystem, VisibilityView
from sandfs.exceptions import InvalidOperation
from sandfs.shell import CommandResult

RULE = ("A case registers commands of every accepted shape (one parameter, argument list and context, variable parameters, methods, partials, callable "
        "objects) and behaviour (text, nothing, result objects with error text and exit codes, exceptions, changes of what they were handed, tree changes, "
        "nested command lines, replaced built-ins) and runs structured scripts mixing them with built-ins in pipelines, redirections, prefixed and "
        "persistent variables and globs in several shells of one sandbox. Every call the commands receive (order, arguments, input, variables, directory, "
        "sandbox, view) and every result is compared with an interpretation of the script's structure. Counted: distinct (script line, calls, result) "
        "observations.")
ASSUMPTIONS = ["commands take the argument list, optionally followed by the context, as documented, and raise only ordinary exceptions"]
REQUIRE = {"lines judged": 8000, "calls judged": 9000, "contexts judged": 5000, "piped inputs": 1500, "redirected inputs": 600, "redirected outputs": 1000,
           "prefix variables": 1200, "failing commands": 800, "raised errors": 400, "replaced built-ins": 300, "nested lines": 300, "handed values changed": 800,
           "glob arguments": 400, "bystander shells": 1500, "help judged": 1000,
           "quoted wildcards or dollars": 1000, "changes of directory inside lines": 1000}
QUICK_TIMES = 8

SHAPES = ["one", "two", "var", "method1", "method2", "partial", "object", "default", "lambda", "kwonly1", "kwargs1", "kwonly2", "posonly", "rest", "default2", "default3", "keyed", "same"]
ACTIONS = ["args", "stdin", "none", "result", "fail", "raise", "sandbox-error", "spoil", "write", "nest", "empty", "env", "value", "chdir"]
VALUES = [0, 7, False, [], 1.5, ("x", 1), {}, b"", True, -0.0]
NAMES = ["deploy", "fmt", "x-y", "run.sh", "K", "lint", "tr", "note_it", "echo", "wc", "help2", "_x", "__y", ".dot", "X", "123", "%", "é", "a:b", "@at", "+", "long" * 12]
WORDS = ["a", "b c", "", "x|y", "a>b", "é", "'q'", "--flag", "-n", "k=v", "$", "1", "it's", "#h", "tab\there", "%s", "~", "a\\b", '"d"', "-", ";", "*", "*.x", "$A", "${B}", "[io]*", "?", "$A*"]
VARS = ["A", "B", "HOME_", "x1"]
FILES = ["in.x", "in2.x", "note.y", "o"]
CTX = {"two", "var", "method2", "partial", "object", "default", "lambda", "kwonly2", "posonly", "rest", "default2", "default3", "keyed", "same"}


def gen_case(rng, index, tier):
    commands = []
    for name in rng.sample(NAMES, rng.randint(2, 5)):
        commands.append([name, rng.choice(SHAPES), rng.choice(ACTIONS), rng.choice(["", "", "does things"]), rng.randint(1, 99)])
    names = [c[0] for c in commands]
    shells = rng.randint(1, 3)
    ops = []
    for _ in range(rng.randint(3, 9)):
        roll = rng.random()
        who = rng.randrange(shells)
        if roll < 0.12:
            ops.append(["set", who, rng.choice(VARS), rng.choice(WORDS + ["v1", "v2"])])
        elif roll < 0.2:
            ops.append(["cd", who, rng.choice(["/", "/w", "/w/sub"])])
        elif roll < 0.3:
            ops.append(["register", who, rng.choice(NAMES), rng.choice(SHAPES), rng.choice(ACTIONS), rng.choice(["", "new words"]), rng.randint(100, 199)])
        elif roll < 0.36:
            ops.append(["help", who])
        else:
            ops.append(["line", who, gen_line(rng, names)])
    return {"commands": commands, "shells": shells, "views": rng.random() < 0.5, "ops": ops, "env": {v: rng.choice(WORDS[:8]) for v in VARS[:2]}}


def gen_line(rng, names):
    stages = []
    count = rng.choice([1, 1, 2, 2, 3, 4])
    for at in range(count):
        name = rng.choice(names) if rng.random() < 0.75 else rng.choice(["cat", "say", "cd"])
        args = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            roll = rng.random()
            if roll < 0.65:
                args.append(["w", rng.choice(WORDS)])
            elif roll < 0.88:
                args.append(["v", rng.choice(VARS + ["NONE"]), rng.choice(["", "{}", "pre"])])
            else:
                args.append(["g", rng.choice(["*.x", "*.y", "i*", "?", "*.zzz", "n[o]te.y"])])
        if name == "cat":
            args = []
        elif name == "cd":
            args = [["w", rng.choice(["/", "/w", "/w/sub"])]]
        stages.append({
            "name": name, "args": args,
            "set": {rng.choice(VARS): rng.choice(["p1", "p 2", "", "é", "$A"]) for _ in range(rng.choice([0, 0, 0, 1, 2]))},
            "in": rng.choice(["in.x", "in2.x", "/w/note.y"]) if rng.random() < (0.25 if at == 0 else 0.1) else None,
            "out": None, "app": False,
        })
        if rng.random() < (0.25 if at == count - 1 else 0.07):
            stages[-1]["out"] = rng.choice(["o", "/w/o2", "new.z"])
            stages[-1]["app"] = rng.random() < 0.4
    return stages


def word(text):
    return "'" + text.replace("'", "'\"'\"'") + "'"


def render(stages):
    parts = []
    for st in stages:
        bits = [f"{k}={word(v) if v else ''}" for k, v in st["set"].items()]
        bits.append(word(st["name"]) if st["name"] == "K" else st["name"])
        for arg in st["args"]:
            if arg[0] == "w":
                bits.append(word(arg[1]))
            elif arg[0] == "v":
                bits.append({"": "$" + arg[1], "{}": "${" + arg[1] + "}", "pre": "p-$" + arg[1]}[arg[2]])
            else:
                bits.append(arg[1])
        if st["in"]:
            bits += ["<", st["in"]]
        if st["out"]:
            bits += [">>" if st["app"] else ">", st["out"]]
        parts.append(" ".join(bits))
    return " | ".join(parts)


class Custom:
    """One registered command: what it does, what it was called with."""

    def __init__(self, world, name, shape, action, mark):
        self.world, self.name, self.shape, self.action, self.mark = world, name, shape, action, mark

    def act(self, args, ctx):
        self.world.calls.append((self.name, self.mark, list(args), None if ctx is None else (
            ctx.stdin, dict(ctx.env), ctx.cwd, ctx.vfs is self.world.vfs, ctx.view)))
        kind, out, err, code, exc = self.meaning(list(args), ctx.stdin if ctx else "", dict(ctx.env) if ctx else {})
        if self.action == "spoil":
            args.append("spoilt")
            if ctx is not None:
                ctx.env["A"] = "spoilt"
                ctx.env["LEAK"] = "1"
                ctx.env.pop("B", None)
                ctx.stdin = "spoilt"
                ctx.cwd = "/spoilt"
        if self.action == "write":
            self.world.vfs.append_file("/w/effects", f"{self.mark};")
        if self.action == "chdir":
            self.world.vfs.cd(["/", "/w", "/w/sub"][self.mark % 3])
        if self.action == "nest":
            got = self.world.nested.exec(f"nested{self.mark} 'a b' | cat")
            self.world.nested_results.append((self.mark, got.exit_code, got.stdout, got.stderr))
        if exc is not None:
            raise exc
        if kind == "text":
            return out
        if kind == "none":
            return None
        if kind == "value":
            return VALUES[self.mark % len(VALUES)]
        return CommandResult(stdout=out, stderr=err, exit_code=code)

    def meaning(self, args, stdin, env):
        """(kind, stdout, stderr, exit code, exception) for this call."""
        a, m = self.action, self.mark
        if a == "args":
            return "text", f"{m}:" + "\x1f".join(args) + "\n", "", 0, None
        if a == "stdin":
            return "text", f"{m}<" + stdin + ">\n", "", 0, None
        if a == "none":
            return "none", "", "", 0, None
        if a == "empty":
            return "text", "", "", 0, None
        if a == "value":
            return "value", str(VALUES[m % len(VALUES)]), "", 0, None
        if a == "result":
            return "result", f"{m}out\n", f"note{m};", 0, None
        if a == "fail":
            return "result", f"{m}part\n", f"bad{m};", (m % 40) + 1 if m % 4 else -(m % 30) - 1, None
        if a == "raise":
            return None, "", f"boom{m}", None, [ValueError, KeyError, RuntimeError, OSError, StopIteration, AssertionError, LookupError][m % 7](f"boom{m}")
        if a == "sandbox-error":
            return None, "", f"refused{m}", None, InvalidOperation(f"refused{m}")
        if a == "env":
            return "text", ";".join(f"{k}={v}" for k, v in sorted(env.items())), "", 0, None
        return "text", f"{m}.{a}\n", "", 0, None

    def handler(self):
        me = self

        class Holder:
            def one(self, args):
                return me.act(args, None)

            def two(self, args, ctx):
                return me.act(args, ctx)

        class Callable_:
            def __call__(self, args, ctx):
                return me.act(args, ctx)

        def one(args):
            return me.act(args, None)

        def two(argv, context):
            return me.act(argv, context)

        def var(*everything):
            args, ctx = everything
            return me.act(args, ctx)

        def default(args, ctx=None):
            return me.act(args, ctx)

        def default2(args, ctx=False):
            return me.act(args, ctx)

        def default3(args=("none",), ctx="none", *more):
            return me.act(args, ctx)

        def keyed(ctx, args):  # the order decides, not the names
            return me.act(ctx, args)

        @functools.wraps(one)
        def same(args, ctx):
            return me.act(args, ctx)
        del same.__wrapped__

        def three(extra, args, ctx):
            return me.act(args, ctx)

        def kwonly1(args, *, flag=False):
            return me.act(args, None)

        def kwargs1(args, **options):
            return me.act(args, None)

        def kwonly2(args, ctx, *, flag=False, **options):
            return me.act(args, ctx)

        def posonly(args, ctx, /):
            return me.act(args, ctx)

        def rest(args, *more):
            return me.act(args, *more)

        return {"default2": default2, "default3": default3, "keyed": keyed, "same": same, "kwonly1": kwonly1, "kwargs1": kwargs1, "kwonly2": kwonly2, "posonly": posonly, "rest": rest, "one": one, "two": two, "var": var, "method1": Holder().one, "method2": Holder().two, "object": Callable_(), "default": default,
                "partial": functools.partial(three, 7), "lambda": lambda args, ctx: me.act(args, ctx)}[self.shape]


class World:
    def __init__(self, case, obs):
        self.obs = obs
        self.vfs = VirtualFileSystem()
        for path, text in (("/w/in.x", "line one\ntwo\n"), ("/w/in2.x", "é no newline"), ("/w/note.y", ""), ("/w/sub/in.x", "deeper\n"),
                           ("/w/sub/in2.x", "d2\n"), ("/in.x", "top\n"), ("/in2.x", "top2\n"), ("/w/effects", "")):
            self.vfs.write_file(path, text)
        self.calls, self.nested_results = [], []
        self.nested = SandboxShell(self.vfs)
        self.files = {p: n.read(self.vfs) for p, n in ((str(p), n) for p, n in self.vfs.iter_files("/"))}
        self.shells, self.env, self.known, self.docs = [], [], [], []
        for number in range(case["shells"]):
            view = VisibilityView(classifications={"public"}) if case["views"] and number else None
            sh = SandboxShell(self.vfs, env=dict(case["env"]), **({"view": view} if view else {}))
            self.shells.append(sh)
            self.env.append(dict(case["env"]))
            self.known.append({})
            self.docs.append({})
        self.builtin = sorted(self.shells[0].available_commands())
        for number in range(case["shells"]):
            for name, shape, action, doc, mark in case["commands"]:
                self.register(number, name, shape, action, doc, mark)
        self.cwd = "/"

    def register(self, number, name, shape, action, doc, mark):
        command = Custom(self, name, shape, action, mark)
        if name in self.builtin:
            self.obs.ev("replaced built-ins")
        self.shells[number].register_command(name, command.handler(), description=doc)
        self.known[number][name] = command
        if doc:
            self.docs[number][name] = doc
        if action == "nest":
            self.nested.register_command(f"nested{mark}", lambda args: f"{mark}[{args}]")

    def path(self, text):
        return text if text.startswith("/") else self.cwd.rstrip("/") + "/" + text

    def globbed(self, pattern):
        if not any(mark in pattern for mark in "*?["):
            return [pattern]
        base = self.cwd.rstrip("/") + "/"
        dirs, files = set(), set()
        for p in self.files:
            if p.startswith(base):
                head, sep, _ = p[len(base):].partition("/")
                (dirs if sep else files).add(head)
        self.obs.ev("glob arguments")
        return [base + n for n in sorted(dirs) + sorted(files) if fnmatch.fnmatchcase(n, pattern)] or [pattern]

    def arguments(self, st, env):
        out = []
        for arg in st["args"]:
            if arg[0] == "w":  # quoted: as it is
                out.append(arg[1])
                self.obs.ev("quoted wildcards or dollars", int(any(mark in arg[1] for mark in "*?[$")))
            elif arg[0] == "v":
                out += self.globbed(("p-" if arg[2] == "pre" else "") + env.get(arg[1], ""))
            else:
                out += self.globbed(arg[1])
        return out

    def line(self, number, stages):
        """Interpret a line: (expected calls, expected result or a predicate)."""
        calls, errors, pipe = [], [], ""
        for st in stages:
            env = dict(self.env[number])
            env.update(st["set"])
            if st["set"]:
                self.obs.ev("prefix variables")
            args = self.arguments(st, env)
            stdin = pipe
            if st["in"]:
                if self.path(st["in"]) not in self.files:
                    return calls, ("error", None)
                stdin = self.files[self.path(st["in"])]
                self.obs.ev("redirected inputs")
            elif pipe:
                self.obs.ev("piped inputs")
            command = self.known[number].get(st["name"])
            if command is None:
                if st["name"] == "say":
                    return calls, ("error", None)
                out, err, code = stdin, "", 0
                if st["name"] == "cd":
                    self.obs.ev("changes of directory inside lines")
                    self.cwd = out = args[0]
            else:
                seen = command.shape in CTX
                calls.append((command.name, command.mark, args, (stdin, env, self.cwd, True, self.shells[number].view) if seen else None))
                _, out, err, code, exc = command.meaning(args, stdin if seen else "", env if seen else {})
                if command.action == "write":
                    self.files["/w/effects"] += f"{command.mark};"
                if command.action == "chdir":
                    self.obs.ev("changes of directory inside lines")
                    self.cwd = ["/", "/w", "/w/sub"][command.mark % 3]
                if command.action == "spoil":
                    self.obs.ev("handed values changed")
                if command.action == "nest":
                    self.obs.ev("nested lines")
                if exc is not None:
                    self.obs.ev("raised errors")
                    return calls, ("raised", err)
            errors.append(err)
            if code:
                self.obs.ev("failing commands")
                return calls, ("result", out, "".join(errors), code)
            if st["out"]:
                target = self.path(st["out"])
                self.files[target] = (self.files.get(target, "") if st["app"] else "") + out
                self.obs.ev("redirected outputs")
                out = ""
            pipe = out
        return calls, ("result", pipe, "".join(errors), 0)




def run(case, obs):
    w = World(case, obs)
    for op in case["ops"]:
        kind, number = op[0], op[1]
        sh = w.shells[number]
        others = [(i, dict(s.env), s.available_commands()) for i, s in enumerate(w.shells) if i != number]
        w.calls.clear()
        w.nested_results.clear()
        if kind == "set":
            got = sh.exec(f"{op[2]}={word(op[3])}")
            w.env[number][op[2]] = op[3]
            if got.exit_code or got.stdout or got.stderr:
                raise Violation(f"setting a variable gave {got}")
        elif kind == "cd":
            got = sh.exec(f"cd {op[2]}")
            if got.exit_code:
                raise Violation(f"cd {op[2]} failed: {got.stderr}")
            w.cwd = op[2]
        elif kind == "register":
            w.register(number, *op[2:])
        elif kind == "help":
            judge_help(w, number, obs)
        else:
            text = render(op[2])
            want_calls, want = w.line(number, op[2])
            try:
                got = sh.exec(text)
            except Exception as exc:  # noqa: BLE001
                raise Violation(f"{text!r}: {type(exc).__name__} {exc} out of the shell") from exc
            judge(w, number, text, want_calls, want, got, obs)
            obs.state(text, repr(want), sorted(w.env[number].items()), w.cwd)
        if dict(sh.env) != w.env[number]:
            raise Violation(f"after {op!r} the shell's variables are {sh.env!r}, expected {w.env[number]!r}")
        for i, env, names in others:
            obs.ev("bystander shells")
            if dict(w.shells[i].env) != env or w.shells[i].available_commands() != names:
                raise Violation(f"{op!r} in one shell changed another shell's variables or commands")
        have = {str(p): n.read(w.vfs) for p, n in w.vfs.iter_files("/")}
        if have != w.files:
            raise Violation(f"after {op!r} files are {_short(have)}, expected {_short(w.files)}")
        if w.vfs.pwd() != w.cwd:
            raise Violation(f"after {op!r} the current directory is {w.vfs.pwd()}")


def judge(w, number, text, want_calls, want, got, obs):
    obs.ev("lines judged")
    if [c[:3] for c in w.calls] != [c[:3] for c in want_calls]:
        raise Violation(f"{text!r} called {_short([c[:3] for c in w.calls])}, expected {_short([c[:3] for c in want_calls])}")
    for have, need in zip(w.calls, want_calls):
        obs.ev("calls judged")
        if (have[3] is None) != (need[3] is None):
            raise Violation(f"{text!r}: {have[0]} was called {'without' if have[3] is None else 'with'} a context")
        if need[3] is None:
            continue
        obs.ev("contexts judged")
        for field, a, b in zip(("input", "variables", "directory", "sandbox", "view"), have[3], need[3]):
            if (a is not b) if field == "view" else (a != b):
                raise Violation(f"{text!r}: the {field} handed to {have[0]} is {a!r}, expected {b!r}")
    for mark, code, out, err in w.nested_results:
        if (code, out, err) != (0, f"{mark}[['a b']]", ""):
            raise Violation(f"{text!r}: a command line run by a command gave {(code, out, err)}")
    if not isinstance(got, CommandResult):
        raise Violation(f"{text!r} returned {got!r}")
    have = (got.stdout, got.stderr, got.exit_code)
    if want[0] == "result":
        if have != want[1:]:
            raise Violation(f"{text!r} gave {have!r}, expected {want[1:]!r}")
    elif got.exit_code == 0 or not got.stderr:
        raise Violation(f"{text!r} gave {have!r}, expected a failure")
    elif want[0] == "raised" and want[1] not in got.stderr:
        raise Violation(f"{text!r} failed with {got.stderr!r}, which does not say {want[1]!r}")


def judge_help(w, number, obs):
    obs.ev("help judged", 1 + len(w.builtin))
    sh = w.shells[number]
    names = sorted(set(w.builtin) | set(w.known[number]))
    if sh.available_commands() != names:
        raise Violation(f"available commands are {sh.available_commands()}, expected {names}")
    got = sh.exec("help")
    if got.exit_code or got.stderr:
        raise Violation(f"help gave {got}")
    shown = {}
    for text in got.stdout.splitlines():
        if text.startswith("  "):
            name, _, doc = text.strip().partition(" - ")
            shown[name] = doc
    if sorted(shown) != names:
        raise Violation(f"help lists {sorted(set(shown) ^ set(names))} wrongly")
    for name, doc in w.docs[number].items():
        if shown[name] != doc:
            raise Violation(f"help describes {name} as {shown[name]!r}, expected {doc!r}")


def families():
    return [Family("custom", 2600, 40000, gen_case, run)]
