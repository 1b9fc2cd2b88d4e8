"""C16: pipelines, redirection, variables and text commands behave as a shell."""

import re

from ..core import Family, Inconclusive, Violation
from ..gen import TEXTS, WORDS, text
from ..model import RefFS, Refused, RefusedPartly, Undefined, match_line
from ..sim import diff, digest_real

from sandfs import SandboxShell, VirtualFileSystem
from sandfs.exceptions import InvalidOperation
from sandfs.shell import CommandResult

RULE = ("A case is a list of scripts built as syntax trees (pipelines, redirections, assignments, quoting styles), rendered to command "
        "text for the real shell and interpreted by an independent evaluator; output, error text, exit code, what each recording "
        "stage received (input, arguments, variables, directory), the variables and the whole tree are compared after each script; "
        "observed: distinct (script, state) pairs.")
ASSUMPTIONS = ["variables are not split into several words, and a value used without quotes holds no wildcards (C28 judges those)",
               "head -c and tail -c are judged on ASCII input only", "lines are those of str.splitlines"]
REQUIRE = {"scripts": 17000, "stages": 40000, "redirected out": 2500, "redirected in": 1500, "appended": 1200, "recorded stages": 3000,
           "failing scripts": 1500, "multi-line scripts": 5000, "quoted operators": 3000, "quoted wildcards": 3000, "quoted dollars": 3000, "variable references": 6000, "head/tail": 5000,
           "printf": 1500, "wc": 2000, "grep": 3000, "write/append": 1500}
QUICK_TIMES = 5

DIRS = ["/", "/d", "/d/e"]
FILES = ["/a", "/b.txt", "/d/a", "/d/x y", "/d/e/c", "/pi|pe", "/é", "/st*r", "/d/[q]?", "/d/$S1"]
SIMPLE = ["alpha", "x1", "a.b", "/a", "todo", "d"]
ODD = ["two words", "a|b", "x > y", "<in", "it's", 'say "hi"', "back\\slash", "", "  pad  ", "semi;colon", "amp & amp", "#hash", "é ü", "a=b",
       "tab\there", "a >> b", "|", ">", "''", "-n", "~", "%s", "back\\nslash", "end\\", "{x}", "日本", "--text", "a\\|b", "x\\",
       "a#b", "x##", "3=4", "c#", "no!", "a.b=c", "*", "a*", "[a]", "?", "b.t?t", "/d/*", "$S1", "${S2}", "5$", "$", "a$V1", "/d/$S1", "*$S1*"]
DOLLARS = ["$S2", "a$S1", "${S2}", "5$", "$$S2", "$V1 ${V2}", "cost $NOPE", "$", "${"]  # values of variables; never expanded themselves
FORMATS = ["%s", "%s\\n", "a\\nb", "\\t%s\\t", "%s-%s", "plain", "x\\\\y", "c:\\\\new\\\\%s", "100 %% of %s", "%s|%s>%s\\n", "\\r\\n", "\\\\n",
           "tail\\", "\\q%s", ""]
REGEX = ["^a", "a.b", "o$", "x+", "(alpha|beta)", "\\d", "^$", "b\\.", "t.d.", "A", "é", "al*", "[a-c]", "be?", "a$", "x*$"]


# -- rendering -----------------------------------------------------------------------------------
def quote(style, value, first=False):
    if style == "b" and re.fullmatch(r"[A-Za-z0-9_./:,+@%-][A-Za-z0-9_./:,+@%#=!-]*", value) and not re.match(r"[A-Za-z_]\w*=", value):
        return value
    if style == "d":
        return '"' + re.sub(r'([\\"$])', r"\\\1", value) + '"'
    if style == "e" and value and not any(c.isspace() for c in value):
        return "".join(c if c.isalnum() or c in "_./:,+@%-" else "\\" + c for c in value)
    return "'" + value.replace("'", "'\"'\"'") + "'"


def render_word(word):
    out = ""
    for style, value in reversed(word):
        if style in "vVwW":
            bare = style == "V" or style == "v" and not re.match(r"\w", out)
            ref = f"${value}" if bare else f"${{{value}}}"
            out = (f'"{ref}"' if style in "VW" else ref) + out
        else:
            out = quote(style, value) + out
    return out


def render_stage(stage):
    bits = [f"{key}={render_word(word)}" for key, word in stage.get("assign", ())]
    words = [render_word(word) for word in stage["words"]]
    gap = " " if stage.get("gap", True) else ""
    redirs = []
    if stage.get("in"):
        redirs.append("<" + gap + render_word(stage["in"]))
    if stage.get("out"):
        redirs.append((">>" if stage.get("append") else ">") + gap + render_word(stage["out"]))
    if stage.get("early") and len(words) > 1:
        words[1:1] = redirs
    else:
        words += redirs
    return " ".join(bits + words)


def render_line(line):
    if "assign" in line:
        return " ".join(f"{key}={render_word(word)}" for key, word in line["assign"])
    return (" | " if line.get("gap", True) else "|").join(render_stage(stage) for stage in line["stages"])


def render_script(script):
    pieces = []
    for line in script["lines"]:
        pieces.append(line.get("pad", "") + render_line(line) + line.get("tail", ""))
    return script.get("sep", "\n").join(pieces)


# -- the reference evaluator ----------------------------------------------------------------------------
class Failed(Exception):
    def __init__(self, code=None, out=None, err=None):
        super().__init__(code)
        self.code, self.out, self.err = code, out, err


class Reference:
    def __init__(self, case):
        self.fs = RefFS()
        for path in DIRS[1:]:
            self.fs.mkdir(path)
        for path, body in case["files"].items():
            self.fs.write(path, body)
        self.env = dict(case["env"])
        self.texts = case["texts"]
        self.notes = []
        self.err = ""

    def word(self, word, env):
        return "".join(env.get(value, "") if style in "vVwW" else value for style, value in word)

    def read(self, path):
        node = self.fs.find(self.fs.lex(path))
        if node is None or node.kind != "f":
            raise Failed()
        return node.content

    def change(self, action, *args, **kwargs):
        try:
            action(*args, **kwargs)
        except RefusedPartly:
            raise Inconclusive("partial removal") from None
        except Refused:
            raise Failed() from None
        except Undefined as exc:
            raise Inconclusive(str(exc)) from None

    def script(self, script):
        """-> (stdout, stderr, exit) with None for text that is not judged."""
        last = ("", "", 0)
        for line in script["lines"]:
            self.err = ""
            if not line.get("assign") and not line.get("stages"):
                continue
            try:
                last = (self.line(line), self.err, 0)
            except Failed as exc:
                err = None if exc.err is None else self.err + exc.err
                return (exc.out, err, "some" if exc.code is None else exc.code)
        return last

    def line(self, line):
        if "assign" in line:
            for key, word in line["assign"]:
                self.env[key] = self.word(word, self.env)
            return ""
        pipe = ""
        for stage in line["stages"]:
            env = dict(self.env)
            env.update({key: self.word(word, self.env) for key, word in stage.get("assign", ())})
            name, *args = [self.word(word, env) for word in stage["words"]]
            if stage.get("in"):
                pipe = self.read(self.word(stage["in"], env))
            pipe = self.command(name, args, pipe, env)
            if stage.get("out"):
                self.change(self.fs.write, self.word(stage["out"], env), pipe, append=bool(stage.get("append")))
                pipe = ""
        return pipe

    def command(self, name, args, stdin, env):
        handler = getattr(self, "do_" + name, None)
        if handler is None:
            raise Failed()
        return handler(args, stdin, env)

    def do_emit(self, args, stdin, env):
        return self.texts[int(args[0])]

    def do_note(self, args, stdin, env):
        self.notes.append([stdin, args, env, self.fs.cwd.path()])
        return stdin

    def do_quiet(self, args, stdin, env):
        return ""

    def do_warn(self, args, stdin, env):
        self.err += f"[warn {args[0]}]"
        return stdin

    def do_fail(self, args, stdin, env):
        self.notes.append([stdin, args, env, self.fs.cwd.path()])
        raise Failed(int(args[0]), "out:" + stdin, "[fail]")

    def do_boom(self, args, stdin, env):
        raise Failed()

    def do_echo(self, args, stdin, env):
        end = "\n"
        if args and args[0] == "-n":
            args, end = args[1:], ""
        return " ".join(args) + end

    def do_printf(self, args, stdin, env):
        if not args:
            return ""
        fmt, values = args[0], args[1:]
        out, used, at = "", 0, 0
        formatted = "%s" in fmt
        while at < len(fmt):
            pair = fmt[at:at + 2]
            if pair in ("\\n", "\\t", "\\r", "\\\\"):
                out += {"n": "\n", "t": "\t", "r": "\r", "\\": "\\"}[pair[1]]
                at += 2
            elif formatted and pair == "%s":
                if used >= len(values):
                    raise Inconclusive("printf with too few values")
                out += values[used]
                used += 1
                at += 2
            elif formatted and pair == "%%":
                out += "%"
                at += 2
            elif formatted and fmt[at] == "%":
                raise Inconclusive("printf with other conversions")
            else:
                out += fmt[at]
                at += 1
        if used != len(values):
            raise Inconclusive("printf with too many values")
        return out

    def do_cat(self, args, stdin, env):
        if not args:
            return stdin
        return "".join(stdin if arg == "-" else self.read(arg) for arg in args)

    def lines(self, body):
        return body.splitlines(keepends=True)

    def slicing(self, args, stdin, cut_lines, cut_chars):
        count, unit, paths = 10, "-n", []
        rest = list(args)
        while rest:
            arg = rest.pop(0)
            if arg in ("-n", "-c"):
                if not rest or not re.fullmatch(r"\d+", rest[0]):
                    raise Failed()
                unit, count = arg, int(rest.pop(0))
            else:
                paths.append(arg)
        blocks = []
        for path in paths or ["-"]:
            body = stdin if path == "-" else self.read(path)
            if unit == "-c":
                if not body.isascii():
                    raise Inconclusive("bytes of non-ASCII text")
                part = cut_chars(body, count)
            else:
                part = "".join(cut_lines(self.lines(body), count))
            blocks.append(part if len(paths) < 2 else f"==> {path} <==\n{part}")
        return "\n\n".join(blocks)

    def do_head(self, args, stdin, env):
        return self.slicing(args, stdin, lambda rows, n: [row for i, row in enumerate(rows) if i < n], lambda body, n: body[:n])

    def do_tail(self, args, stdin, env):
        return self.slicing(args, stdin, lambda rows, n: [row for i, row in enumerate(rows) if len(rows) - i <= n],
                            lambda body, n: body[max(0, len(body) - n):])

    def do_wc(self, args, stdin, env):
        flags = [a for a in args if a in ("-l", "-c")] or ["-l", "-c"]
        paths = [a for a in args if a not in ("-l", "-c")]
        rows = []
        for path in paths or [None]:
            body = stdin if path in (None, "-") else self.read(path)
            row = []
            if "-l" in flags:
                row.append(str(len(body.splitlines())))
            if "-c" in flags:
                row.append(str(len(body.encode())))
            if path:
                row.append(path)
            rows.append(" ".join(row))
        return "\n".join(rows)

    def do_grep(self, args, stdin, env):
        known = {"-i": "i", "--ignore-case": "i", "-n": "n", "--line-number": "n", "-e": "e", "--regex": "e", "-r": "r"}
        flags = {known[a] for a in args if a in known}
        words = [a for a in args if a not in known]
        if not words:
            raise Failed()
        pattern, paths = words[0], words[1:]
        rows = []
        for path in paths or ["-"]:
            node = self.fs.find(self.fs.lex(path))
            if path != "-" and node is not None and node.kind == "d":
                raise Inconclusive("grep on a directory")
            body = stdin if path == "-" else self.read(path)
            label = "" if path == "-" else self.fs.need(self.fs.lex(path)).path() + ":"
            for number, line in enumerate(body.splitlines(), 1):
                if match_line(line, pattern, "e" in flags, "i" in flags):
                    rows.append(label + (f"{number}:" if "n" in flags else "") + line)
        return "\n".join(rows)

    do_rg = do_grep

    def do_write(self, args, stdin, env):
        if not args:
            raise Failed()
        rest, body, append = list(args[1:]), [], False
        while rest:
            arg = rest.pop(0)
            if arg == "--append":
                append = True
            elif arg == "--text" and rest:
                body.append(rest.pop(0))
            else:
                body.append(arg)
        self.change(self.fs.write, args[0], " ".join(body), append=append)
        return ""

    def do_append(self, args, stdin, env):
        if len(args) < 2:
            raise Failed()
        self.change(self.fs.write, args[0], " ".join(args[1:]), append=True)
        return ""

    def do_pwd(self, args, stdin, env):
        return self.fs.cwd.path()

    def do_cd(self, args, stdin, env):
        if len(args) != 1:
            raise Failed()
        self.change(self.fs.cd, args[0])
        return self.fs.cwd.path()

    def do_touch(self, args, stdin, env):
        if not args:
            raise Failed()
        for arg in args:
            self.change(self.fs.touch, arg)
        return ""

    def do_mkdir(self, args, stdin, env):
        deep = "-p" in args
        paths = [a for a in args if a != "-p"]
        if not paths:
            raise Failed()
        for path in paths:
            self.change(self.fs.mkdir, path, parents=deep, exist_ok=deep)
        return ""

    def do_rm(self, args, stdin, env):
        deep = any(a in ("-r", "-rf") for a in args)
        paths = [a for a in args if a not in ("-r", "-rf")]
        if not paths:
            raise Failed()
        for path in paths:
            self.change(self.fs.remove, path, recursive=deep)
        return ""

    def do_cp(self, args, stdin, env):
        deep = "-r" in args
        paths = [a for a in args if a != "-r"]
        if len(paths) != 2:
            raise Failed()
        self.change(self.fs.copy, *paths, recursive=deep)
        return ""

    def do_mv(self, args, stdin, env):
        if len(args) != 2:
            raise Failed()
        self.change(self.fs.move, *args)
        return ""


# -- generation ----------------------------------------------------------------------------------------
class Maker:
    def __init__(self, rng):
        self.rng = rng
        self.made = 0

    def lit(self, value):
        rng = self.rng
        if value and len(value) > 2 and rng.random() < 0.15:
            cut = rng.randrange(1, len(value))
            return [[rng.choice("bsde"), value[:cut]], [rng.choice("bsde"), value[cut:]]]
        return [[rng.choice("bbsde"), value]]

    def word(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.2:
            return [[rng.choice("vvw"), rng.choice(["S1", "S2"])]]
        if roll < 0.4:
            return [[rng.choice("VVW"), rng.choice(["V1", "V2", "S1", "NOPE", "V11", "S2x", "S", "V", "V1_", "_V1", "v1", "NEW", "N", "N1", "N12", "Nx", "N_", "n", "NEW1"])]]
        if roll < 0.5:
            return self.lit(rng.choice(SIMPLE)) + [[rng.choice("VVW"), rng.choice(["V1", "V2"])]] + self.lit(rng.choice(SIMPLE))
        if roll < 0.56:
            return self.lit(rng.choice(SIMPLE + ODD)) + [[rng.choice("vw"), rng.choice(["S1", "S2"])]] + self.lit(rng.choice(SIMPLE + ODD))
        return self.lit(rng.choice(SIMPLE + ODD))

    def path(self, kind="f"):
        rng = self.rng
        roll = rng.random()
        if roll < 0.06:
            value = "/missing" if roll < 0.03 else rng.choice(DIRS)
        elif roll < 0.2:
            self.made += 1
            value = rng.choice(["/d/new", "/n", "/d/e/deep/n"]) + str(self.made % 7)
        elif kind == "d":
            value = rng.choice(DIRS + ["/d2", "/d/f"])
        else:
            value = rng.choice(FILES)
        if rng.random() < 0.2:
            value = value.replace("/", rng.choice(["//", "/./"]), 1)
        return self.lit(value)

    def count(self):
        return str(self.rng.choice([0, 1, 1, 2, 3, 5, 9, 10, 11, 100]))

    def source(self, first):
        """A stage that produces text (or passes its input on)."""
        rng = self.rng
        words = [rng.choice([
            lambda: ["emit", self.lit(str(rng.randrange(6)))],
            lambda: ["echo", *[self.word() for _ in range(rng.randint(0, 4) if rng.random() < 0.97 else rng.choice([20, 70, 300]))]],
            lambda: ["echo", self.lit("-n"), *[self.word() for _ in range(rng.randint(0, 3))]],
            lambda: ["printf", *self.printf()],
            lambda: ["cat", self.path()],
            lambda: ["cat", *[self.path() for _ in range(2 if rng.random() < 0.95 else rng.choice([9, 40]))]],
        ])()] if first or rng.random() < 0.15 else []  # in later stages too, where the input is not asked for
        if not words:
            words = [self.filter()]
        return words[0]

    def printf(self):
        fmt = self.rng.choice(FORMATS)
        count = fmt.replace("%%", "").count("%s")
        return [self.lit(fmt), *[self.word() for _ in range(count)]]

    def filter(self):
        rng = self.rng
        some = lambda: [self.path() for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]  # noqa: E731
        dash = lambda: rng.choice([[], [], [self.lit("-")], [self.lit("-"), self.path()], [self.lit("-"), self.lit("-")], [self.path(), self.lit("-")],
                                   [self.lit("-"), self.path(), self.lit("-")]])  # noqa: E731
        return rng.choice([
            lambda: ["cat", *dash()],
            lambda: ["note", *[self.word() for _ in range(rng.randint(0, 3))]],
            lambda: [rng.choice(["head", "tail"]), *rng.choice([[], [self.lit("-n"), self.lit(self.count())]]), *some()],
            lambda: [rng.choice(["head", "tail"]), self.lit(rng.choice(["-n", "-c"])), self.lit(self.count()), *dash()],
            lambda: [rng.choice(["head", "tail"]), *[w for _ in range(rng.randint(2, 3)) for w in (self.lit(rng.choice(["-n", "-c"])), self.lit(self.count()))], *some(),
                     *rng.choice([[], [self.lit("-n"), self.lit(self.count())]])],
            lambda: ["wc", *rng.choice([[], [self.lit("-l")], [self.lit("-c")], [self.lit("-c"), self.lit("-l")]]), *rng.choice([some, some, dash])()],
            lambda: [rng.choice(["grep", "grep", "rg"]), *self.greps(), *rng.choice([some, some, dash])()],
            lambda: ["warn", self.lit("w")],
            lambda: ["note"],
        ])()

    def greps(self):
        rng = self.rng
        flags = [self.lit(f) for f in ("-i", "-n", "-e") if rng.random() < 0.35]
        regex = any(f[0][1] == "-e" for f in flags)
        return [*flags, self.lit(rng.choice(REGEX if regex else WORDS + ["*", "?", "$", "a.b", "|", ">", " ", "\\"]))]

    def effect(self):
        rng = self.rng
        return rng.choice([
            lambda: ["write", self.path(), *[self.word() for _ in range(rng.randint(0, 3))]],
            lambda: ["write", self.path(), self.lit("--append"), self.word()],
            lambda: ["write", self.path(), self.lit("--text"), self.word(), self.lit("--append")],
            lambda: ["append", self.path(), self.word(), self.word()],
            lambda: ["touch", self.path()],
            lambda: ["mkdir", *rng.choice([[], [self.lit("-p")]]), self.path("d")],
            lambda: ["rm", *rng.choice([[], [self.lit("-r")]]), self.path()],
            lambda: ["cp", self.path(), self.path()],
            lambda: ["cp", self.lit("-r"), self.path("d"), self.path("d")],
            lambda: ["mv", self.path(), self.path()],
            lambda: ["cd", self.path("d")],
            lambda: ["pwd"],
            lambda: ["quiet"],
            lambda: ["fail", self.lit(str(rng.choice([1, 2, 3, 99, -1, -9, 300])))] if rng.random() < 0.4 else ["boom"] if rng.random() < 0.3 else ["note"],
            lambda: ["nosuchcommand", self.word()] if rng.random() < 0.4 else ["pwd"],
        ])()

    def stage(self, first, last):
        rng = self.rng
        roll = rng.random()
        if roll < 0.72:
            words = self.source(first)
        else:
            words = self.effect()
        name = words[0]
        if rng.random() < 0.1:
            words = [self.lit(name)] + words[1:]
            words[0] = [["s", name]]
        else:
            words = [[["b", name]]] + words[1:]
        stage = {"words": words}
        if rng.random() < 0.12:
            stage["assign"] = [[rng.choice(["V1", "V2", "NEW"]), self.lit(rng.choice(SIMPLE + ODD))]]
            if rng.random() < 0.4:
                stage["assign"].append(["S1", self.lit(rng.choice(SIMPLE))])
        if name in ("cat", "head", "tail", "wc", "grep", "note", "fail", "warn", "rg") and rng.random() < 0.2:
            stage["in"] = self.path()
        if rng.random() < (0.35 if last else 0.08):
            stage["out"] = self.path() if rng.random() < 0.9 else [["V", "S1"]]
            stage["append"] = rng.random() < 0.45
        stage["gap"] = rng.random() < 0.7
        stage["early"] = rng.random() < 0.15
        return stage

    def line(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.13:
            key = rng.choice(["V1", "V2", "S1", "S2"])
            value = SIMPLE if key[0] == "S" else SIMPLE + ODD
            word = self.lit(rng.choice(value))
            if key[0] == "V" and rng.random() < 0.3:
                word = word + [["V", rng.choice(["V1", "V2"])]]
            line = {"assign": [[key, word]]}
            while key[0] == "V" and rng.random() < 0.35:  # several, each using what the ones before it set
                key = rng.choice(["V1", "V2", "V3", "V4"])
                if all(key != other for other, _ in line["assign"]):
                    word = [["V", rng.choice(["V1", "V2", "V3"])]] + (self.lit(rng.choice(value)) if rng.random() < 0.5 else [])
                    line["assign"].append([key, word])
            return line
        if roll < 0.17:
            return {}
        depth = rng.choice([1, 1, 1, 2, 2, 3, 4]) if rng.random() < 0.985 else rng.choice([8, 17, 33, 70])
        line = {"stages": [self.stage(i == 0, i == depth - 1) for i in range(depth)], "gap": rng.random() < 0.8}
        return line

    def script(self):
        rng = self.rng
        lines = [self.line() for _ in range(rng.choice([1, 1, 1, 2, 3]) if rng.random() < 0.99 else rng.choice([12, 40]))]
        for line in lines:
            if rng.random() < 0.1:
                line["pad"] = rng.choice([" ", "\t", "   "])
            if rng.random() < 0.1:
                line["tail"] = rng.choice([" ", "\t"])
        return {"lines": [self.clean(line) for line in lines], "sep": rng.choice(["\n", "\n", "\n\n", "\r\n"])}

    def clean(self, line):
        if not line.get("assign") and not line.get("stages"):
            return {key: value for key, value in line.items() if key in ("pad", "tail")} | {"stages": []}
        return line


def gen_case(rng, index, tier):
    maker = Maker(rng)
    files = {path: text(rng, big=False) for path in FILES if rng.random() < 0.85}
    texts = [rng.choice(TEXTS) if rng.random() < 0.5 else text(rng) for _ in range(6)]
    texts[0] = "\n".join(f"row {i}" for i in range(rng.choice([0, 1, 9, 10, 11, 12, 30]))) + rng.choice(["", "\n"])
    env = {"S1": rng.choice(SIMPLE), "S2": rng.choice(SIMPLE)}
    if rng.random() < 0.5:
        env["V1"] = rng.choice(ODD)
    if rng.random() < 0.5:
        env["N"] = rng.choice(SIMPLE)
    for key in ("S1", "V1", "V2"):
        if rng.random() < 0.15:
            env[key] = rng.choice(DOLLARS)
    return {"files": files, "texts": texts, "env": env,
            "ops": [maker.script() for _ in range(rng.randint(3, 9) if tier == "quick" else rng.randint(3, 20))]}


def run_case(case, obs):
    ref = Reference(case)
    vfs = VirtualFileSystem()
    for path in DIRS[1:]:
        vfs.mkdir(path)
    for path, body in case["files"].items():
        vfs.write_file(path, body)
    shell = SandboxShell(vfs, env=dict(case["env"]))
    notes = []

    def record(args, ctx):
        if ctx.vfs is not vfs:
            raise Violation("a command was given another filesystem")
        notes.append([ctx.stdin, list(args), dict(ctx.env), str(ctx.cwd)])

    def note(args, ctx):
        record(args, ctx)
        return ctx.stdin

    def fail(args, ctx):
        record(args, ctx)
        return CommandResult(stdout="out:" + ctx.stdin, stderr="[fail]", exit_code=int(args[0]))

    def boom(args):
        raise (InvalidOperation("boom") if args else ValueError("boom"))

    shell.register_command("emit", lambda args: case["texts"][int(args[0])])
    shell.register_command("note", note)
    shell.register_command("quiet", lambda args: None)
    shell.register_command("warn", lambda args, ctx: CommandResult(stdout=ctx.stdin, stderr=f"[warn {args[0]}]"))
    shell.register_command("fail", fail)
    shell.register_command("boom", boom)

    for script in case["ops"]:
        command = render_script(script)
        out, err, code = ref.script(script)
        result = shell.exec(command)
        obs.ev("scripts")
        obs.state(command, code, ref.env, ref.fs.cwd.path())
        tally(script, obs)
        where = f"script {command!r} (variables {ref.env}, in {ref.fs.cwd.path()})"
        if code == 0:
            if result.exit_code != 0:
                raise Violation(f"{where} failed with {result.exit_code}: {result.stderr!r}")
        else:
            obs.ev("failing scripts")
            if result.exit_code == 0:
                raise Violation(f"{where} succeeded, printing {result.stdout!r}; a failure was due")
            if code != "some" and result.exit_code != code:
                raise Violation(f"{where} exited with {result.exit_code}, expected {code}")
            if not result.stderr:
                raise Violation(f"{where} failed without a message")
        if out is not None and result.stdout != out:
            raise Violation(f"{where} printed {result.stdout[:600]!r}, expected {out[:600]!r}")
        if err is not None and result.stderr != err:
            raise Violation(f"{where} gave error text {result.stderr!r}, expected {err!r}")
        if notes != ref.notes:
            for got, want in zip(notes + [None], ref.notes + [None]):
                if got != want:
                    raise Violation(f"{where}: a stage received (input, arguments, variables, directory) {got!r}, expected {want!r}")
        if shell.env != ref.env:
            raise Violation(f"{where}: variables are {shell.env!r}, expected {ref.env!r}")
        if vfs.pwd() != ref.fs.cwd.path():
            raise Violation(f"{where}: current directory {vfs.pwd()}, expected {ref.fs.cwd.path()}")
        real, want = {path: row[:5] for path, row in digest_real(vfs).items()}, ref.fs.digest()
        if real != want:
            raise Violation(f"{where}: tree differs: {diff(real, want)}")
        obs.ev("recorded stages", len(notes))
        notes.clear()
        ref.notes.clear()


def tally(script, obs):
    lines = [line for line in script["lines"] if line.get("assign") or line.get("stages")]
    if len(lines) > 1:
        obs.ev("multi-line scripts")
    for line in lines:
        for stage in line.get("stages", ()):
            obs.ev("stages")
            name = stage["words"][0][0][1]
            for group, names in (("head/tail", ("head", "tail")), ("printf", ("printf",)), ("wc", ("wc",)), ("grep", ("grep", "rg")),
                                 ("write/append", ("write", "append"))):
                if name in names:
                    obs.ev(group)
            if stage.get("in"):
                obs.ev("redirected in")
            if stage.get("out"):
                obs.ev("appended" if stage.get("append") else "redirected out")
            for word in stage["words"]:
                for style, value in word:
                    if style in "vVwW":
                        obs.ev("variable references")
                    elif any(c in value for c in "|<>"):
                        obs.ev("quoted operators")
                    elif any(c in value for c in "*?[]"):
                        obs.ev("quoted wildcards")
                    elif "$" in value:
                        obs.ev("quoted dollars")


def families():
    return [Family("scripts", 6000, 60000, gen_case, run_case)]
