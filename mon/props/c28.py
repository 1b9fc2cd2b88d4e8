"""C28: patterns name exactly the matching nodes."""

import posixpath
import re

from ..core import Family, Violation
from ..world import gen_view, is_hidden, make_view, q, set_policy, state_of

from sandfs import SandboxShell, VirtualFileSystem
from sandfs.exceptions import SandboxError
from sandfs.providers import ProvidedNode

RULE = ("A case builds a tree whose names hold wildcard characters, dots, spaces and look-alikes, partly behind unread directory providers, "
        "changes it between questions and asks the shell (words of bare patterns, quoted text and variables) and the API for patterns, and "
        "find for names and types, from every kind of current directory and under a view; an independent matcher over the "
        "whole tree gives the exact set of paths, each once; observed: distinct (question, tree, directory) triples.")
ASSUMPTIONS = ["'*' in a pattern with a slash also matches '/'", "bare brackets are closed within one piece of a word", "the order of matches is not judged",
               "patterns ending in a slash and '..' after a wildcard are not judged", "names have no line breaks and do not start with a dash"]
REQUIRE = {"words judged": 20000, "words that matched": 6000, "words without a match": 4000, "words without wildcards": 1500, "quoted wildcards": 3000, "patterns from variables": 2000,
           "globs judged": 8000, "finds judged": 8000, "relative patterns": 4000, "wildcards in the directory": 1500, "hidden nodes": 1500,
           "first looks at a provided directory": 300, "files concatenated": 600}
QUICK_TIMES = 3

NAMES = ["a", "b", "ab", "abc", "A", "a.txt", "b.txt", "c.TXT", "n1", "n2", "n10", "[a]", "a*", "?", "*", "x y", "é", "日本", "a-b", "!a", "^b", "a]", "[", ".h",
         "..x", "$V", "sub", "s*b", "[ab]", "a?c", "z~", "a.b.txt", "txt",
         "long" * 20 + "1", "long" * 20 + "2", "long" * 40, "L" * 255]
SPECIAL = "*?[]"


# -- the matcher -------------------------------------------------------------------------------------
def lit(text):
    return [("=", c) for c in text]


def parse(text):
    """Pattern text -> tokens: ('=', char), ('?',), ('*',), ('[', negated, singles and ranges)."""
    out, at = [], 0
    while at < len(text):
        char = text[at]
        at += 1
        if char == "*":
            out.append(("*",))
        elif char == "?":
            out.append(("?",))
        elif char == "[":
            start = at + (text[at:at + 1] == "!")
            end = text.find("]", start + 1)
            if end < 0:
                out.append(("=", "["))
                continue
            body, items, i = text[start:end], [], 0
            while i < len(body):
                if i + 2 < len(body) and body[i + 1] == "-":
                    items.append((body[i], body[i + 2]))
                    i += 3
                else:
                    items.append((body[i], body[i]))
                    i += 1
            out.append(("[", text[at] == "!", tuple(items)))
            at = end + 1
        else:
            out.append(("=", char))
    return out


def wild(tokens):
    return any(token[0] != "=" for token in tokens)


def match(tokens, text):
    """The positions reachable after each token, as a set."""
    reach = {0}
    for token in tokens:
        if token[0] == "*":
            reach = set(range(min(reach), len(text) + 1)) if reach else reach
            continue
        step = set()
        for at in reach:
            if at == len(text):
                continue
            char = text[at]
            if token[0] == "=":
                good = char == token[1]
            elif token[0] == "?":
                good = True
            else:
                good = any(low <= char <= high for low, high in token[2]) != token[1]
            if good:
                step.add(at + 1)
        reach = step
    return len(text) in reach


def absolute(tokens, cwd):
    """Tokens of the whole path asked for, or None when that is not judged."""
    if tokens[0] != ("=", "/"):
        tokens = lit(cwd) + lit("/") + tokens
    parts, part = [], []
    for token in tokens + [("=", "/")]:
        if token != ("=", "/"):
            part.append(token)
            continue
        if part == lit(".."):
            if parts and wild(parts.pop()):
                return None
        elif part and part != lit("."):
            parts.append(part)
        part = []
    full = []
    for part in parts:
        full += lit("/") + part
    return full or lit("/")


def select(tokens, cwd, shown):
    if ("=", "/") in tokens:
        full = absolute(tokens, cwd)
        return None if full is None else [path for path in shown if match(full, path)]
    return [path for path in shown if path != "/" and (path.rsplit("/", 1)[0] or "/") == cwd and match(tokens, path.rsplit("/", 1)[1])]


# -- words -------------------------------------------------------------------------------------------
def render(word):
    out = ""
    for style, value in reversed(word):
        if style == "p":
            out = value + out
        elif style == "v":
            out = (f"${value}" if not re.match(r"\w", out) else f"${{{value}}}") + out
        elif style == "V":
            out = f'"${value}"' + out
        elif style == "d":
            out = '"' + re.sub(r'([\\"$])', r"\\\1", value) + '"' + out
        elif style == "e" and " " not in value:
            out = "".join(c if c.isalnum() else "\\" + c for c in value) + out
        else:
            out = "'" + value.replace("'", "'\"'\"'") + "'" + out
    return out


def tokens_of(word, env):
    out = []
    for style, value in word:
        out += parse(value) if style == "p" else parse(env.get(value, "")) if style == "v" else lit(env.get(value, "") if style == "V" else value)
    return out


def text_of(word, env):
    return "".join(env.get(value, "") if style in "vV" else value for style, value in word)


def bare(name):
    return re.fullmatch(r"[\w.^~-]+", name) is not None and not name.startswith("~")


class Maker:
    def __init__(self, rng):
        self.rng = rng
        self.dirs = ["/"]
        self.files = []

    def name(self):
        return self.rng.choice(NAMES)

    def known(self):
        pool = [p.rsplit("/", 1)[1] for p in self.dirs[1:] + self.files]
        return self.rng.choice(pool) if pool and self.rng.random() < 0.7 else self.name()

    def chunk(self):
        return self.rng.choice(["*", "*", "?", "??", "[a-c]", "[!a]", "[^a]", "[^b]*", "[!^]", "[a-]", "[z-a]", "**", "*?*", "{a,b}", "[ab]", "[]a]", "[*]", "[?a]", "[[]", "*.txt", "a*", "*b", "n?", "n[0-9]", "[n-z]*", "*a*",
                                "?*", "[!b]*", "*.[tT]*", "s*", "[A-Z]", ".*", "*[0-9]"])

    def blur(self, name):
        """A pattern derived from a name that exists: some characters widened."""
        rng = self.rng
        out = ""
        for char in name:
            roll = rng.random() * max(1, len(name) / 20)  # many stars in one pattern take forever
            if roll < 0.15:
                out += "?"
            elif roll < 0.25:
                out += "*"
            elif roll < 0.35 and char not in "]/":
                out += "[" + rng.choice(["", "z", "a-c"]) + char + "]" if char not in "!^-" else "?"
            elif char in SPECIAL:
                out += f"[{char}]" if char != "]" else "[]]"
            else:
                out += char
        return out

    def segment(self, raw):
        """One path component: a list of pieces."""
        rng = self.rng
        roll = rng.random()
        if roll < 0.35:
            return [["p", self.chunk()]]
        if roll < 0.6:
            text = self.blur(self.known())
            if raw or not re.search(r"[^\w.*?\[\]!~^-]", text) and not text.startswith("~") and not re.search(r"^[^\[]*\]", text):
                return [["p", text]]
            return [["s", self.known()]]
        if roll < 0.7:
            return [["v", rng.choice(["P", "Q"])]] if not raw else [["p", self.chunk()]]
        name = self.known()
        cut = rng.randrange(len(name) + 1) if rng.random() < 0.4 else len(name)
        pieces = [[rng.choice("sde"), name[:cut]]] if name[:cut] else []
        if rng.random() < 0.4:
            pieces.append(["p", self.chunk()])
        if name[cut:]:
            pieces.append([rng.choice("sde"), name[cut:]])
        if rng.random() < 0.1:
            pieces.append(["V", rng.choice(["P", "Q", "L"])])
        return pieces

    def word(self, raw=False):
        rng = self.rng
        roll = rng.random()
        if roll < 0.42:
            return self.segment(raw)
        if rng.random() < 0.35 and len(self.dirs) > 1:
            parts = rng.choice(self.dirs + self.files).split("/")[1:]
            parts = [[["p", self.blur(p)]] if rng.random() < 0.35 and (raw or bare(p)) else [[rng.choice("sde"), p]] for p in parts if p] or [self.segment(raw)]
        else:
            parts = [self.segment(raw) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.25:
            parts.insert(0, [["p", rng.choice([".", "..", "../.."])]])
        elif rng.random() < 0.1:
            parts.insert(rng.randrange(len(parts) + 1), [["p", "."]])
        word = []
        for number, part in enumerate(parts):
            if number or rng.random() < 0.7:
                word.append(["p", "//" if rng.random() < 0.05 else "/"])
            word += part
        return word

    def text(self, word):
        """A word as pattern text for the API (quoted pieces written as brackets)."""
        return "".join(value if style == "p" else re.sub(r"([*?\[])", r"[\1]", value) for style, value in word)


def gen_case(rng, index, tier):
    m = Maker(rng)
    ops = []
    count = 0

    def grow():
        nonlocal count
        base = rng.choice(m.dirs[-4:] if rng.random() < 0.6 else m.dirs)
        path = base.rstrip("/") + "/" + m.name()
        if rng.random() < 0.5:
            m.dirs.append(path)
            ops.append(["mkdir", path])
        elif rng.random() < 0.12:
            names = [m.name() for _ in range(rng.randint(1, 3))]
            m.dirs.append(path)
            m.files += [f"{path}/{name}" for name in names]
            ops.append(["lazy", path, names])
        else:
            m.files.append(path)
            count += 1
            ops.append(["write", path, f"text {count}\n"])
        if rng.random() < 0.12:
            ops.append(["label", path, {"classification": rng.choice(["public", "secret"]), "principals": rng.choice([[], [], ["ann"]])}])

    def near():
        """A directory as named from the current one."""
        cwd = next((op[1] for op in reversed(ops) if op[0] == "cd"), "/")
        return rng.choice(["", "./"]) + posixpath.relpath(rng.choice(m.dirs), cwd) + rng.choice(["", "", "/", "/."])

    def ask():
        roll = rng.random()
        if roll < 0.1 and m.files:
            parts = [p for p in rng.choice(m.files).split("/")[1:]]
            last = [["p", m.blur(parts[-1])]] if bare(parts[-1]) else [[rng.choice("sde"), parts[-1]], ["p", "*"]]
            word = [piece for p in parts[:-1] for piece in (["p", "/"], [rng.choice("sde"), p])] + [["p", "/"]] + last
            ops.append(["words", [word], "cat"])
        elif roll < 0.5:
            ops.append(["words", [m.word() for _ in range(rng.randint(1, 3))], rng.choice(["note", "note", "note", "cat"])])
        elif roll < 0.72:
            ops.append(["glob", m.text(m.word(True)), rng.choice([None, None, rng.choice(m.dirs), near()])])
        else:
            name = rng.choice([None, "" if rng.random() < 0.2 else None, m.chunk(), m.blur(m.known()), m.known(), re.sub(r"([*?\[])", r"[\1]", m.known())])
            ops.append(["find", rng.choice([[], [rng.choice(m.dirs + m.files)], [rng.choice(m.dirs), rng.choice(m.dirs)]]), name,
                        rng.choice([None, None, "f", "d"])])

    for _ in range(rng.randint(5, 12) if tier == "quick" else rng.randint(6, 22)):
        grow()
    for _ in range(rng.randint(8, 16) if tier == "quick" else rng.randint(10, 40)):
        roll = rng.random()
        if roll < 0.62:
            ask()
        elif roll < 0.74:
            ops.append(["cd", rng.choice(m.dirs)])
        elif roll < 0.82:
            grow()
        elif roll < 0.87:
            ops.append(["rm", rng.choice(m.dirs + m.files)])
        elif roll < 0.92:
            target = rng.choice(m.dirs).rstrip("/") + "/" + m.name()
            m.dirs.append(target)
            ops.append([rng.choice(["mv", "cp"]), rng.choice(m.dirs[1:] + m.files), target])
        else:
            ops.append(["set", rng.choice("PQL"), rng.choice([m.chunk(), m.chunk(), "a", "*/*", "/*", "a b", "/sub/*"])])
    view = gen_view(rng, [[p] for p in m.dirs[1:] + m.files]) if rng.random() < 0.4 else None
    return {"ops": ops, "view": view, "env": {"P": m.chunk(), "Q": rng.choice(["*", "a", "[ab]*", "/*"]), "L": rng.choice(["*", "", "a"])}}


def run_case(case, obs):
    vfs = VirtualFileSystem()
    view = case["view"] if case["view"] is not None else {}
    real = make_view(view)
    shell = SandboxShell(vfs, view=real)
    shell.env.update(case["env"])
    env = dict(case["env"])
    got = []

    def note(args, ctx):
        got.append(list(args))

    shell.register_command("note", note)
    fresh = [False]

    def visible():
        """Paths the view lists, once the question has been answered."""
        state = state_of(vfs)
        shown = [p for p in state if not is_hidden(view, state, p, listing=True)]
        obs.ev("hidden nodes", len(state) - len(shown))
        if fresh[0]:
            obs.ev("first looks at a provided directory")
            fresh[0] = False
        return state, shown

    def judge(what, found, wanted, cwd):
        if sorted(found) != sorted(wanted):
            raise Violation(f"{what} in {cwd!r} (view {view}) gave {sorted(found)!r}, expected {sorted(wanted)!r}")

    for op in case["ops"]:
        kind = op[0]
        try:
            if kind == "mkdir":
                vfs.mkdir(op[1], parents=True)
            elif kind == "write":
                vfs.write_file(op[1], op[2])
            elif kind == "label":
                set_policy(vfs, op[1], op[2])
            elif kind == "lazy":
                names = list(op[2])
                vfs.mount_directory(op[1], lambda ctx, names=names: {name: ProvidedNode.file(content=f"from {name}\n") for name in names})
                fresh[0] = True
            elif kind == "cd":
                vfs.cd(op[1])
            elif kind == "rm":
                vfs.remove(op[1], recursive=True)
            elif kind == "mv":
                vfs.move(op[1], op[2])
            elif kind == "cp":
                vfs.copy(op[1], op[2], recursive=True)
            elif kind == "set":
                result = shell.exec(f"{op[1]}={q(op[2])}")
                env[op[1]] = op[2]
                if result.exit_code != 0:
                    raise Violation(f"setting {op[1]} to {op[2]!r} failed: {result.stderr}")
        except SandboxError:
            continue
        cwd = vfs.pwd()
        if kind == "glob":
            where = cwd if op[2] is None else posixpath.normpath(posixpath.join(cwd, op[2]))
            if where.startswith("//"):
                where = where[1:]
            try:
                found = vfs.glob(op[1], cwd=op[2], view=real if case["view"] is not None else None)
            except SandboxError as exc:
                if not vfs.exists(where) or not vfs.is_dir(where):
                    continue
                raise Violation(f"glob({op[1]!r}) from {where!r} failed: {exc!r}") from None
            state, shown = visible()
            wanted = select(parse(op[1]), where, shown if case["view"] is not None else list(state)) if op[1] else []
            if wanted is None or ("/" in op[1] and op[1].endswith("/")):
                continue
            obs.ev("globs judged")
            obs.state(op, where, sorted(state))
            judge(f"glob({op[1]!r}, cwd={op[2]!r})", found, wanted, cwd)
        elif kind == "find":
            command = " ".join(["find", *[q(p) for p in op[1]], *(["-name", q(op[2])] if op[2] is not None else []), *(["-type", op[3]] if op[3] else [])])
            result = shell.exec(command)
            state, shown = visible()
            tops = op[1] or [cwd]
            if any(p not in state or is_hidden(view, state, p) for p in tops):
                if result.exit_code == 0 and any(p not in state for p in tops):
                    raise Violation(f"{command!r} succeeded although something it names is missing")
                continue
            if result.exit_code != 0:
                raise Violation(f"{command!r} failed: {result.stderr!r}")
            # A directory left out of listings hides what is below it from find.
            wanted = []
            for top in tops:
                for path in shown:
                    if not (path == top or path.startswith(top.rstrip("/") + "/")):
                        continue
                    chain = [path[:i] for i in range(len(top.rstrip("/")) + 1, len(path)) if path[i] == "/"] + ([top] if path != top else [])
                    if any(c not in shown for c in chain if c):
                        continue
                    if op[3] and state[path][0] != op[3]:
                        continue
                    if op[2] is not None and not match(parse(op[2]), path.rsplit("/", 1)[1]):
                        continue
                    wanted.append(path)
            found = result.stdout.split("\n") if result.stdout else []
            if op[2] is not None:  # the name of the root is nobody's business
                found, wanted = [p for p in found if p != "/"], [p for p in wanted if p != "/"]
            if len(tops) > 1:  # overlapping starting points may print a node more than once
                found, wanted = sorted(set(found)), sorted(set(wanted))
            obs.ev("finds judged")
            obs.state(op, cwd, sorted(state))
            judge(repr(command), found, wanted, cwd)
        elif kind == "words":
            words = op[1]
            command = " ".join([op[2], *map(render, words)])
            del got[:]
            result = shell.exec(command)
            state, shown = visible()
            if cwd not in state or state[cwd][0] != "d":  # removed under the shell's feet
                continue
            wanted, plain = [], False
            for word in words:
                tokens = tokens_of(word, env)
                if not wild(tokens):
                    wanted.append([text_of(word, env)])
                    obs.ev("words without wildcards")
                    continue
                if tokens[-1] == ("=", "/"):
                    plain = True
                    break
                hits = select(tokens, cwd, shown)
                if hits is None:
                    plain = True
                    break
                obs.ev("words that matched" if hits else "words without a match")
                wanted.append(sorted(hits) or [text_of(word, env)])
            if plain:
                continue
            for word in words:
                obs.ev("words judged")
                if any(style not in "pvV" and any(c in value for c in SPECIAL) for style, value in word):
                    obs.ev("quoted wildcards")
                if any(style == "v" for style, _ in word):
                    obs.ev("patterns from variables")
                if not render(word).startswith("/"):
                    obs.ev("relative patterns")
                if any(c in cwd for c in SPECIAL):
                    obs.ev("wildcards in the directory")
            obs.state(command, env, cwd, sorted(state))
            flat = [path for group in wanted for path in group]
            if op[2] == "note":
                if result.exit_code != 0 or len(got) != 1:
                    raise Violation(f"{command!r} in {cwd!r} failed: {result.stderr!r}")
                if len(got[0]) != len(flat):
                    raise Violation(f"{command!r} in {cwd!r} (variables {env}, view {view}) gave words {got[0]!r}, expected {flat!r} (in any order per word)")
                at = 0
                for word, group in zip(words, wanted):
                    judge(f"word {render(word)!r} (variables {env})", got[0][at:at + len(group)], group, cwd)
                    at += len(group)
            elif all(path.startswith("/") and state.get(path, "?")[0] == "f" and path in shown for path in flat):
                if result.exit_code != 0:
                    raise Violation(f"{command!r} in {cwd!r} failed: {result.stderr!r}")
                obs.ev("files concatenated", len(flat))
                judge(repr(command), result.stdout.splitlines(), "".join(state[path][1] for path in flat).splitlines(), cwd)


def families():
    return [Family("patterns", 4000, 40000, gen_case, run_case)]
