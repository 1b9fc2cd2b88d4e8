"""C21: Python snippets get only the curated environment."""

import builtins
import contextlib
import io
import sys

from ..core import Family, Violation
from ..gen import Gen
from ..hostside import audit, disk, drop, import_noise
from ..sim import digest_real
from ..world import q

from sandfs import SandboxShell, VirtualFileSystem
from sandfs.pyexec import PythonExecutor

RULE = ("Snippets probe every name of the interpreter's builtins and common modules in many syntactic positions (curated ones must work, all others must "
        "fail without host effects, watched by an audit hook); histories of runs that assign, delete and replace names are followed by probes of "
        "the environment; printed text is compared with independently computed text while the process's stream is watched; and histories of "
        "filesystem calls made by snippets are compared with the same calls made directly on a twin. Counted: distinct snippets judged.")
ASSUMPTIONS = ["objects placed in the environment are shared, not copied: only names are reset between runs",
               "attribute-level introspection is covered by a fixed list of known escape routes"]
REQUIRE = {"absent names probed": 2500, "curated names probed": 700, "runs in histories": 2500, "environment probes": 4000, "printed texts compared": 3000,
           "failing snippets": 1500, "twin calls compared": 4000, "known escape routes tried": 20, "streams checked": 6000, "runs given an ordinary namespace": 500,
           "names resolved": 10000, "silent snippets": 600, "programs judged": 400}
QUICK_TIMES = 2

CURATED = ["abs", "all", "any", "bool", "dict", "enumerate", "float", "int", "len", "list", "map", "max", "min", "print", "range", "repr", "reversed",
           "round", "set", "sorted", "str", "sum", "tuple", "zip"]
ABSENT = sorted(name for name in dir(builtins) if name not in CURATED and name not in ("None", "True", "False", "__debug__", "__name__", "_"))
MODULES = ["os", "sys", "io", "subprocess", "pathlib", "socket", "shutil", "builtins", "importlib", "sandfs", "json", "math", "ctypes", "this", "tempfile"]
WORKS = {"abs": "abs(-2) == 2", "all": "all([1])", "any": "not any([])", "bool": "bool(1)", "dict": "dict(a=1)['a'] == 1", "enumerate": "list(enumerate('a')) == [(0, 'a')]",
         "float": "float('1.5') == 1.5", "int": "int('7') == 7", "len": "len('ab') == 2", "list": "list('ab') == ['a', 'b']", "map": "list(map(abs, [-1])) == [1]",
         "max": "max(1, 2) == 2", "min": "min(1, 2) == 1", "print": "print('') is None", "range": "list(range(2)) == [0, 1]", "repr": "repr('a') == \"'a'\"",
         "reversed": "list(reversed([1, 2])) == [2, 1]", "round": "round(1.6) == 2", "set": "set([1, 1]) == {1}", "sorted": "sorted([2, 1]) == [1, 2]",
         "str": "str(1) == '1'", "sum": "sum([1, 2]) == 3", "tuple": "tuple([1]) == (1,)", "zip": "list(zip([1], [2])) == [(1, 2)]"}
HOME = None


def setup_worker(scratch, rank):
    global HOME
    HOME = drop(scratch, rank)
    sys.dont_write_bytecode = True


class Stream(io.StringIO):
    pass


def run(executor, code, obs, **kwargs):
    """-> (stdout or None, globals or None, exception or None), with the process's stream and the host watched."""
    outer = Stream()
    saved = sys.stdout
    sys.stdout = outer
    hook = audit()
    before = disk(".")
    try:
        with hook:
            try:
                result = executor.run(code, **kwargs)
                got = (result.stdout, result.globals, None)
            except Exception as exc:  # noqa: BLE001
                got = (None, None, exc)
                obs.ev("failing snippets")
        if sys.stdout is not outer:
            raise Violation(f"snippet {code!r} left the process's output stream replaced")
    finally:
        sys.stdout = saved
    if outer.getvalue():
        raise Violation(f"snippet {code!r} printed {outer.getvalue()!r} to the process's output")
    effects = [e for e in hook.events if not import_noise(e) and not (e[0] == "open" and str(e[1]).startswith("<") and str(e[1]).endswith(">"))]
    if effects:
        raise Violation(f"snippet {code!r} touched the host: {effects[:2]}")
    if disk(".") != before:
        raise Violation(f"snippet {code!r} changed host files")
    obs.ev("streams checked")
    obs.state(code)
    return got


# -- names -----------------------------------------------------------------------------------------------------------
POSITIONS = ["x = {n}", "{n}('a')", "{n}", "y = lambda: {n}\ny()", "def f():\n    return {n}\nf()", "[{n} for _ in [1]]", "print({n})", "list(map({n}, []))",
             "def g():\n    yield {n}\nlist(g())", "try:\n    1/0\nexcept {n}:\n    pass", "z = 1 if {n} else 2", "f'{{{n}}}'", "del {n}", "x = __builtins__['{n}']"]


def gen_names(rng, index, tier):
    roll = rng.random()
    config = rng.choice(["plain", "extra", "shell", "given"])
    if roll < 0.6:
        return {"kind": "absent", "name": rng.choice(ABSENT), "form": rng.choice(POSITIONS), "config": config}
    if roll < 0.75:
        module = rng.choice(MODULES)
        return {"kind": "import", "config": config, "name": module, "form": rng.choice(["import {n}", "from {n} import *", "import {n} as vfs", "__import__('{n}')",
                "x = __builtins__['__import__']('{n}')", "def f():\n    import {n}\nf()", "from {n} import path", "exec('import {n}')", "eval('{n}')",
                "import {n}.path"])}
    return {"kind": "curated", "name": rng.choice(CURATED), "config": config,
            "form": rng.choice(["print({e})", "x = {e}\nprint(x)", "def f():\n    return {e}\nprint(f())", "print([{e} for _ in [1]][0])"])}


def executor_for(config, vfs):
    if config == "extra":
        return PythonExecutor(vfs, builtins={"triple": lambda value: value * 3}, globals_template={"ANSWER": 42})
    return PythonExecutor(vfs)


GIVEN = [{"__builtins__": builtins}, {"__builtins__": vars(builtins)}, {"__builtins__": vars(builtins), "__name__": "__main__"}]


def run_names(case, obs):
    vfs = VirtualFileSystem()
    vfs.write_file("/a", "text")
    before = digest_real(vfs)
    executor = executor_for(case["config"], vfs)
    name = case["name"]
    if case["kind"] == "curated":
        code = case["form"].format(e=WORKS[name])
        given = {"extra_globals": dict(GIVEN[len(code) % 3])} if case["config"] == "given" else {}
        out, _, error = run(executor, code, obs, **given)
        obs.ev("curated names probed")
        if error is not None or not out.endswith("True\n"):
            raise Violation(f"curated {name}: {code!r} gave {out!r} {error!r}")
        if case["config"] == "extra":
            out, _, error = run(executor, "print(triple('ab'), ANSWER)", obs)
            if error is not None or out != "ababab 42\n":
                raise Violation(f"configured names gave {out!r} {error!r}")
        out, _, error = run(executor, "print(vfs is fs, vfs.read_file('/a'))", obs)
        if error is not None or out != "True text\n":
            raise Violation(f"the sandbox handles gave {out!r} {error!r}")
        return
    code = case["form"].format(n=name)
    if case["config"] == "shell":
        shell = SandboxShell(vfs)
        one = code.replace("\n    ", " ").replace("\n", "; ") if "def" not in code and "try" not in code else f"x = {name}"
        hook = audit()
        with hook:
            result = shell.exec("python -c " + q(one))
        if case["kind"] == "absent" or "import" in one or "eval" in one or "exec" in one or one.startswith("x = "):
            if result.exit_code == 0 or not result.stderr:
                raise Violation(f"shell snippet {one!r} succeeded: {result!r}")
        effects = [e for e in hook.events if not import_noise(e) and not str(e[1]).startswith("<")]
        if effects:
            raise Violation(f"shell snippet {one!r} touched the host: {effects[:2]}")
        obs.state("shell", one)
    else:
        given = {"extra_globals": dict(GIVEN[len(code) % 3])} if case["config"] == "given" else {}
        if given:
            obs.ev("runs given an ordinary namespace")
        out, _, error = run(executor, code, obs, **given)
        if error is None:
            raise Violation(f"snippet {code!r} succeeded, printing {out!r}; {name} is not in the curated environment")
    obs.ev("absent names probed")
    if digest_real(vfs) != before:
        raise Violation(f"snippet {code!r} changed the sandbox")


# -- each run starts from the same environment -------------------------------------------------------------------------------
SPOIL = ["len = 5", "print = None", "vfs = None", "fs = 3", "del vfs", "del fs", "x = 1", "list = dict", "__builtins__['len'] = 7", "__builtins__.clear()",
         "del __builtins__['print']", "__builtins__['evil'] = 1", "__builtins__ = {}", "y = [1, 2]", "def len(x): return -1", "ANSWER = 0", "del ANSWER",
         "vfs = fs = 1", "str = int\n1/0", "range = 4\nraise_me", "for vfs in [1]: pass", "print('gone')\ndel print", "__builtins__['map'] = zip", "__name__ = 'evil'",
         "triple = None", "__builtins__['triple'] = 0", "EXTRA = 5", "del EXTRA", "__builtins__['open'] = print", "import_os = 1"]
PROBE = "\n".join([
    "print(len([1, 2]), str(3), list(range(2)), vfs is fs, vfs.exists('/a'), list(map(abs, [-1])), dict(a=1))",
])
UNBOUND = ["x", "y", "evil", "EXTRA", "open", "import_os", "i_am_unset", "__import__"]


def gen_history(rng, index, tier):
    ops = []
    for _ in range(rng.randint(3, 8) if tier == "quick" else rng.randint(3, 20)):
        ops.append([rng.choice(["run", "run", "shell", "extra", "named", "both"]), rng.choice(SPOIL) if rng.random() < 0.8 else "print('fine')"])
    return {"ops": ops, "config": rng.choice(["plain", "extra"])}


def run_histories(case, obs):
    vfs = VirtualFileSystem()
    vfs.write_file("/a", "text")
    executor = executor_for(case["config"], vfs)
    shell = SandboxShell(vfs, python_executor=executor)
    other = PythonExecutor(vfs)
    for how, code in case["ops"]:
        if how == "run":
            run(executor, code, obs)
        elif how == "named":
            run(executor, code, obs, filename="<mine>")
        elif how in ("extra", "both"):
            given = {"EXTRA": 9, "vfs2": vfs}
            run(executor, code, obs, extra_globals=given, **({"filename": "<run>"} if how == "both" else {}))
            if given != {"EXTRA": 9, "vfs2": vfs}:
                raise Violation(f"snippet {code!r} changed the dictionary passed as extra globals: {given}")
        elif "\n" not in code:
            shell.exec("python " + q(code))
        obs.ev("runs in histories")
        for which in (executor, other):
            out, names, error = run(which, PROBE, obs)
            if error is not None or out != "2 3 [0, 1] True True [1] {'a': 1}\n":
                raise Violation(f"after {code!r} ({how}) the next run's environment gave {out!r} {error!r}")
            for name in UNBOUND:
                out, _, error = run(which, f"print({name})", obs)
                if error is None:
                    raise Violation(f"after {code!r} ({how}) the next run still sees {name}: {out!r}")
            obs.ev("environment probes")
        if case["config"] == "extra":
            out, _, error = run(executor, "print(ANSWER, triple(2))", obs)
            if error is not None or out != "42 6\n":
                raise Violation(f"after {code!r} ({how}) the configured names gave {out!r} {error!r}")
        fresh = PythonExecutor(vfs)
        out, _, error = run(fresh, PROBE, obs)
        if error is not None or out != "2 3 [0, 1] True True [1] {'a': 1}\n":
            raise Violation(f"after {code!r} ({how}) a new executor's environment gave {out!r} {error!r}")


# -- printed text --------------------------------------------------------------------------------------------------------------
def gen_print(rng, index, tier):
    words = ["a", "é", "two words", "", "\n", "x\ty", "😀", "0", "\r", "%s"]
    ops = []
    for _ in range(rng.randint(1, 6)):
        ops.append([[rng.choice(words) for _ in range(rng.randint(0, 4))], rng.choice([None, "", "\n", "|", "--"]), rng.choice([None, "", ".", "\n\n"])])
    return {"ops": ops, "fail": rng.random() < 0.25, "via": rng.choice(["api", "shell", "shell3"]), "nested": rng.random() < 0.2}


def run_print(case, obs):
    lines, want = [], ""
    for words, sep, end in case["ops"]:
        extra = ("" if sep is None else f", sep={sep!r}") + ("" if end is None else f", end={end!r}")
        lines.append(f"print({', '.join(map(repr, words))}{extra if words else extra[2:]})")
        want += (" " if sep is None else sep).join(words) + ("\n" if end is None else end)
    code = "; ".join(lines)
    if case["fail"]:
        code += "; 1/0"
    vfs = VirtualFileSystem()
    executor = PythonExecutor(vfs)
    obs.ev("printed texts compared")
    if case["via"] == "api":
        if case["nested"]:
            inner = io.StringIO()
            with contextlib.redirect_stdout(inner):
                out, _, error = run(executor, code, obs)
            if inner.getvalue():
                raise Violation("printed text leaked")
        else:
            out, _, error = run(executor, code, obs)
        if case["fail"]:
            if not isinstance(error, ZeroDivisionError):
                raise Violation(f"{code!r} ended with {error!r}, {out!r}")
        elif error is not None or out != want:
            raise Violation(f"{code!r} returned {out!r} ({error!r}), it prints {want!r}")
        # the executor keeps nothing of earlier output
        out, _, _ = run(executor, "print('next')", obs)
        if out != "next\n":
            raise Violation(f"after {code!r} the next run returned {out!r}")
        return
    if any(mark in code for mark in "*?[]$"):
        return
    outer = Stream()
    saved, sys.stdout = sys.stdout, outer
    try:
        result = SandboxShell(vfs).exec(("python3 -c " if case["via"] == "shell3" else "python ") + q(code))
        if sys.stdout is not outer:
            raise Violation(f"python command {code!r} left the output stream replaced")
    finally:
        sys.stdout = saved
    if outer.getvalue():
        raise Violation(f"python command {code!r} printed to the process's output")
    if case["fail"]:
        if result.exit_code == 0 or not result.stderr:
            raise Violation(f"python command {code!r} failed but reported {result!r}")
    elif (result.exit_code, result.stdout) != (0, want):
        raise Violation(f"python command {code!r} returned {result!r}, it prints {want!r}")
    obs.state("shell", code)


# -- the handle --------------------------------------------------------------------------------------------------------------
def gen_handle(rng, index, tier):
    g = Gen(rng, weights={"write": 5, "append": 3, "mkdir": 3, "touch": 1, "rm": 2, "rmr": 1, "mv": 3, "cp": 2, "cpr": 2, "cd": 2}, fancy=0.3, big=False,
            via=(1, 0, 0))
    return {"ops": g.run(14 if tier == "quick" else 40), "via": rng.choice(["api", "shell"])}


def call_text(op):
    name = op[0]
    if name == "write":
        _, path, data, append, want, _ = op
        if want is not None and not isinstance(want, int):
            want = None
        extra = "" if want is None else f", expected_version={want}"
        if append == "append_file":
            return f"append_file({path!r}, {data!r}{extra})"
        return f"write_file({path!r}, {data!r}{', append=True' if append else ''}{extra})"
    if name == "touch":
        return f"touch({op[1]!r})"
    if name == "mkdir":
        return f"mkdir({op[1]!r}, parents={op[2]}, exist_ok={op[3]})"
    if name == "rm":
        return f"remove({op[1]!r}, recursive={op[2]})"
    if name == "mv":
        return f"move({op[1]!r}, {op[2]!r})"
    if name == "cp":
        return f"copy({op[1]!r}, {op[2]!r}, recursive={op[3]})"
    if name == "cd":
        return f"cd({op[1]!r})"
    return None


def strip(state):
    return {path: row[:5] for path, row in state.items()}


def run_handle(case, obs):
    inside, direct = VirtualFileSystem(), VirtualFileSystem()
    logs = ([], [])
    for vfs, log in zip((inside, direct), logs):
        vfs.register_path_hook("/", lambda event, log=log: log.append((event.event, str(event.path), event.content)))
    executor = PythonExecutor(inside)
    shell = SandboxShell(inside)
    for number, op in enumerate(case["ops"]):
        call = call_text(op)
        if call is None:
            continue
        handle = "vfs" if number % 2 else "fs"
        error = None
        try:
            eval("target." + call, {"target": direct})  # noqa: S307  (the harness's own text)
        except Exception as exc:  # noqa: BLE001
            error = exc
        obs.ev("twin calls compared")
        if case["via"] == "shell" and not any(mark in call for mark in "*?[]$") and len(call.splitlines()) == 1:
            result = shell.exec("python -c " + q(f"{handle}.{call}"))
            if (result.exit_code == 0) != (error is None):
                raise Violation(f"python {call!r} gave {result!r}, called directly {error!r}")
        else:
            _, _, got = run(executor, f"{handle}.{call}", obs)
            if type(got) is not type(error) or str(got) != str(error):
                raise Violation(f"snippet call {call!r} ended with {got!r}, called directly with {error!r}")
        if strip(digest_real(inside)) != strip(digest_real(direct)) or inside.pwd() != direct.pwd() or logs[0] != logs[1]:
            raise Violation(f"snippet call {call!r} did something else than calling directly: {sorted(digest_real(inside))} / {sorted(digest_real(direct))}")
        obs.state(call, sorted(digest_real(direct)))


# -- what a run is given and what it returns ---------------------------------------------------------------------------------------
VALUES = [1, 0, "text", "", None, [1, 2], {"k": "v"}, (1,), 2.5, True, "é", ()]
KEYS = ["a", "b", "fs", "vfs", "len", "ANSWER", "triple", "print_", "sum", "X9", "é"]
SILENT = ["1 + 1", "'text'", "vfs", "None", "[1, 2]", "len('abc')", "vfs.read_file('/a')", "x9 = 5", "(1,\n 2)", "1; 2", "lambda: 3", "'é'", "\n\n", "# nothing", "",
          "vfs.exists('/a')", "x9 = y9 = 'z'", "if True:\n    'inner'", "for i9 in range(3): i9", "str(7)", "vfs.ls('/')", "...", "-1", "f9 = lambda: print('x')"]
PROGRAMS = [
    ("total = 0\nfor n in range(5):\n    total += n\n", {"total": 10, "n": 4}),
    ("base = 3\ndef f(x):\n    return x + base\nr = f(4)\ndel f", {"base": 3, "r": 7}),
    ("def g(n):\n    return 1 if n < 2 else n * g(n - 1)\nr = g(5)\ndel g", {"r": 120}),
    ("k = 2\nr = [k * i for i in range(3)]", {"k": 2, "r": [0, 2, 4]}),
    ("count = 0\ndef up():\n    global count\n    count += 1\nup()\nup()\ndel up", {"count": 2}),
    ("text = '\\ttab\\n  indented\\r\\n'", {"text": "\ttab\n  indented\r\n"}),
    ("text = \"\"\"a\n  b\n\"\"\"\r\nlast = 1", {"text": "a\n  b\n", "last": 1}),
    ("a, *b = 1, 2, 3", {"a": 1, "b": [2, 3]}),
    ("content = vfs.read_file('/a')\nsame = content == fs.read_file('/a')", {"content": "text", "same": True}),
    ("if (n9 := len('abcd')) > 3:\n    big = True", {"n9": 4, "big": True}),
    ("try:\n    1/0\nfinally:\n    seen = 'yes'", None),
    ("x9 = 1\nraise_me\nx9 = 2", None),
    ("x9 = (", None),
    ("return 5", None),
]


def gen_results(rng, index, tier):
    pick = lambda n: {rng.choice(KEYS): rng.choice(VALUES) for _ in range(rng.randint(0, n))}  # noqa: E731
    return {"template": pick(3), "builtins": pick(2), "extra": [pick(3) if rng.random() < 0.7 else None for _ in range(3)],
            "silent": rng.sample(SILENT, 3), "programs": [rng.randrange(len(PROGRAMS)) for _ in range(2)], "file": rng.choice([None, "<mine>", "<string>"])}


def run_results(case, obs):
    vfs = VirtualFileSystem()
    vfs.write_file("/a", "text")
    template, added = dict(case["template"]), dict(case["builtins"])
    executor = PythonExecutor(vfs, builtins=added, globals_template=template)
    files = {} if case["file"] is None else {"filename": case["file"]}
    for extra in case["extra"]:
        given = {"vfs": vfs, "fs": vfs, **case["template"], **(extra or {})}
        known = {**{name: vars(builtins)[name] for name in CURATED}, **case["builtins"]}
        passed = None if extra is None else dict(extra)
        # each name resolves to the run's own additions, the configured ones, then the curated builtins
        for name in [*KEYS, "len", "max", "vfs", "fs"]:
            code = f"got_it = {name}"
            out, names, error = run(executor, code, obs, extra_globals=passed, **files)
            obs.ev("names resolved")
            if name in given or name in known:
                want = given[name] if name in given else known[name]
                if error is not None or out or names["got_it"] is not want and names["got_it"] != want:
                    raise Violation(f"{name} (template {case['template']}, builtins {case['builtins']}, extra {extra}) is {names and names.get('got_it')!r} {error!r}, "
                                    f"expected {want!r}")
                rest = {key: value for key, value in names.items() if key != "got_it" and not key.startswith("__")}
                if rest != given:
                    raise Violation(f"a run given {given!r} returned the names {rest!r}")
            elif error is None:
                raise Violation(f"{name} was never given but is {names['got_it']!r}")
        if passed != extra or template != case["template"] or added != case["builtins"]:
            raise Violation("a run changed the dictionaries it was configured with")
    if not {"fs", "vfs", "len", "sum"} & ({*case["template"]} | {*case["builtins"]}):
        for code in case["silent"]:
            out, _, error = run(executor, code, obs, **files)
            obs.ev("silent snippets")
            if error is not None or out != "":
                raise Violation(f"snippet {code!r} prints nothing but returned {out!r} {error!r}")
            if code.strip() and not any(mark in code for mark in "*?[]$\n#"):
                for command in (f"python {q(code)}", f"python3 -c {q(code)}"):
                    result = SandboxShell(vfs).exec(command)
                    if (result.exit_code, result.stdout, result.stderr) != (0, "", ""):
                        raise Violation(f"{command!r} prints nothing but gave {result!r}")
        for number in case["programs"]:
            code, want = PROGRAMS[number]
            out, names, error = run(executor, code, obs, **files)
            obs.ev("programs judged")
            if want is None:
                if error is None:
                    raise Violation(f"snippet {code!r} fails but ended normally with {out!r}")
                continue
            rest = {key: value for key, value in (names or {}).items() if not key.startswith("__")}
            if error is not None or out or rest != {"vfs": vfs, "fs": vfs, **case["template"], **want}:
                raise Violation(f"snippet {code!r} left {rest!r}, printed {out!r} ({error!r}); expected {want!r}")


# -- known escape routes ---------------------------------------------------------------------------------------------------------
ROUTES = {
    "builtin-self": "print('reached', print.__self__.open.__name__)",
    "subclasses": "print('reached', len(().__class__.__base__.__subclasses__()) > 50)",
    "method-globals": "print('reached', 'tempfile' in vfs.write_file.__func__.__globals__)",
    "frame": "def g():\n    yield h.gi_frame.f_back\nh = g()\nfor frame in h:\n    print('reached', 'compile' in str(frame.f_back.f_code.co_names))",
}


def gen_routes(rng, index, tier):
    return {"route": sorted(ROUTES)[index % len(ROUTES)]}


def run_routes(case, obs):
    out, _, error = run(PythonExecutor(VirtualFileSystem()), ROUTES[case["route"]], obs)
    obs.ev("known escape routes tried")
    if error is None and out == "reached True\n" or (out or "").startswith("reached open"):
        raise Violation(f"the snippet {ROUTES[case['route']]!r} reaches the interpreter outside the curated environment", key=case["route"])


def families():
    return [
        Family("names", 6000, 40000, gen_names, run_names),
        Family("history", 1000, 10000, gen_history, run_histories),
        Family("print", 3500, 20000, gen_print, run_print),
        Family("handle", 400, 4000, gen_handle, run_handle),
        Family("results", 500, 5000, gen_results, run_results),
        Family("routes", 24, 24, gen_routes, run_routes),
    ]
