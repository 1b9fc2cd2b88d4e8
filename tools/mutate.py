"""Systematic mutation of sandfs: which mutants pass the repository's tests but not the checks?

mutate.py OUT.jsonl [--files vfs,shell] [--jobs 6] [--scale 0.3] [--limit N] [--shard i/n]

Each mutant lives in a scratch copy; tests and checks run as an unprivileged user. Results append to OUT.jsonl, so an
interrupted sweep resumes.
"""
import argparse, ast, collections, json, os, pathlib, random, re, resource, shutil, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
PY = "/opt/venv/bin/python"
FIRST = {"vfs": "C01 C10 C03 C09 C13 C14 C22 C05 C04 C23 C20 C15 C08 C07 C06 C02 C11", "shell": "C16 C08 C17 C07 C18 C20 C15 C19 C06 C05",
         "shell_parser": "C16 C17", "nodes": "C22 C01 C23", "adapters": "C11 C12 C10 C23", "search": "C14 C15", "policies": "C08 C07 C23",
         "pyexec": "C21 C23", "providers": "C22 C23", "cli": "C24", "integrations": "C09", "hooks": "C09"}


def offsets(src):
    starts = [0]
    for line in src.splitlines(keepends=True):
        starts.append(starts[-1] + len(line.encode()))
    return starts


def mutants(src):
    raw = src.encode()
    starts = offsets(src)
    tree = ast.parse(src)
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: raw[pos(n)[0]:pos(n)[1]].decode()
    out = []

    def add(node, new, kind):
        a, b = pos(node)
        if raw[a:b].decode() != new:
            out.append((a, b, new, kind, node.lineno))

    cmp = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not",
           ast.IsNot: "is"}
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
    infunc = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for st in f.body:
                for n in ast.walk(st):
                    infunc.add(id(n))
    for n in ast.walk(tree):
        if id(n) not in infunc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = cmp[type(n.ops[0])]
            add(n, f"{text(n.left)} {op} {text(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BoolOp):
            for v in n.values:
                rest = [x for x in n.values if x is not v]
                op = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + op.join(f"({text(x)})" for x in rest) + ")", "boolop-drop")
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join(f"({text(x)})" for x in n.values) + ")", "boolop-swap")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({text(n.operand)})", "not-drop")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, "False", "cond-false")
            if not isinstance(n, ast.While):
                add(n.test, "True", "cond-true")
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                add(c, "True", "filter-drop")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                add(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and len(n.value) <= 2:
            add(n, repr("X" + n.value) if n.value.isalnum() else '""', "str")
        elif isinstance(n, ast.Constant) and n.value == "" and isinstance(n.value, str):
            add(n, '"~"', "str")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and id(n) not in doc:
            add(n, "pass", "stmt-drop")
        elif isinstance(n, (ast.AugAssign, ast.Delete)):
            add(n, "pass", "stmt-drop")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "stmt-drop")
        elif isinstance(n, ast.Raise):
            add(n, "pass", "raise-drop")
        elif isinstance(n, ast.Continue):
            add(n, "pass", "continue-drop")
            add(n, "break", "continue-break")
        elif isinstance(n, ast.Break):
            add(n, "pass", "break-drop")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n.value, "None", "return-none")
        elif isinstance(n, ast.Return) and n.value is None:
            add(n, "pass", "return-drop")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None and isinstance(n.type, ast.Tuple):
            for e in n.type.elts:
                rest = [text(x) for x in n.type.elts if x is not e]
                add(n.type, "(" + ", ".join(rest) + ",)", "except-narrow")
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in {"dict", "set", "list", "str", "sorted", "tuple", "frozenset"} and len(n.args) == 1:
                add(n, f"({text(n.args[0])})" if not isinstance(n.args[0], ast.GeneratorExp) else f"list({text(n.args[0])})", "copy-drop")
            for kw in n.keywords:
                if kw.arg and kw.arg not in {"stderr"}:
                    a, b = pos(kw)
                    tail = raw[b:b + 1]
                    out.append((a, b + (1 if tail == b"," else 0), "", f"kw-drop:{kw.arg}", kw.lineno))
            if isinstance(n.func, ast.Attribute):
                swap = {"splitlines": 'split("\\n")', "is_relative_to": None, "strip": "lstrip()", "lower": "strip()", "fnmatchcase": None}
                if n.func.attr == "is_relative_to":
                    add(n, f"str({text(n.func.value)}).startswith(str({text(n.args[0])}))", "prefix-str")
                elif swap.get(n.func.attr) and not n.args:
                    add(n, f"{text(n.func.value)}.{swap[n.func.attr]}", "method")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(n, f"({text(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {text(n.right)})", "arith")
            add(n, f"({text(n.left)})", "arith-drop")
        if isinstance(n, ast.Dict) and n.keys:
            pass
        if isinstance(n, (ast.Set, ast.Tuple)) and len(n.elts) > 1 and all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in n.elts):
            br = ("{", "}") if isinstance(n, ast.Set) else ("(", ",)")
            for e in n.elts:
                add(n, br[0] + ", ".join(text(x) for x in n.elts if x is not e) + br[1], "elt-drop")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, f"({text(n.value)})", "slice-drop")
    seen, uniq = set(), []
    for m in out:
        if m[:3] not in seen:
            seen.add(m[:3])
            new = raw[:m[0]] + m[2].encode() + raw[m[1]:]
            try:
                compile(new, "x", "exec")
            except (SyntaxError, ValueError):
                continue
            uniq.append((new.decode(), m[3], m[4], raw[m[0]:m[1]].decode(), m[2]))
    func = {}
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for i in range(f.lineno, f.end_lineno + 1):
                func[i] = f.name
    return [(new, kind, line, old, repl, func.get(line, "")) for new, kind, line, old, repl in uniq]


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="adapters,nodes,policies,search,pyexec,providers,cli,shell_parser,integrations,vfs,shell")
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--scale", type=float, default=0.3)
    ap.add_argument("--limit", type=int)
    ap.add_argument("--checks")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--only", help="re-run: keys (file:line:kind:repl) of uncaught mutants from this results file")
    a = ap.parse_args()
    allc = sorted(p.stem.upper() for p in (VERIF / "mon/props").glob("c[0-9][0-9].py"))
    out = pathlib.Path(a.out)
    bare = lambda key: re.sub(r"^(\w+:[^:]*):\d+:", r"\1:", key)  # lines move with other edits
    done = collections.Counter(bare(json.loads(l)["key"]) for l in out.read_text().splitlines()) if out.exists() else collections.Counter()
    only = None
    if a.only:
        only = {j["key"] for j in map(json.loads, pathlib.Path(a.only).read_text().splitlines()) if j["result"] == "SURVIVED"}
    todo = []
    for stem in a.files.split(","):
        src = (REPO / "sandfs" / f"{stem}.py").read_text()
        for new, kind, line, old, repl, fn in mutants(src):
            key = f"{stem}:{fn}:{line}:{kind}:{old[:40]!r}->{repl[:40]!r}"
            if done[bare(key)]:
                done[bare(key)] -= 1
            elif only is None or key in only:
                todo.append((stem, new, kind, line, old, repl, fn, key))
    if a.list:
        print(collections.Counter(t[0] for t in todo), len(todo))
        return
    random.Random(7).shuffle(todo)
    todo = todo[: a.limit]
    lock = threading.Lock()
    score = collections.Counter()
    env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8", "VERIF_SEED": "1", "VERIF_TIER": "quick"}

    def one(t):
        stem, new, kind, line, old, repl, fn, key = t
        d = pathlib.Path(tempfile.mkdtemp(prefix="mut-"))
        rec = {"key": key, "file": stem, "line": line, "kind": kind, "old": old[:200], "new": repl[:200], "fn": fn}
        try:
            os.chmod(d, 0o777)
            r = d / "repo"
            shutil.copytree(REPO, r, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
            (r / "sandfs" / f"{stem}.py").write_text(new)
            (d / "t").mkdir()
            os.chmod(d / "t", 0o777)
            e = {**env, "HOME": str(d / "t"), "TMPDIR": str(d / "t"), "PYTHONPATH": str(r)}
            try:
                t_ = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=20"], cwd=r, env=e, capture_output=True, text=True,
                                    timeout=90, user=65534, group=65534, extra_groups=[], preexec_fn=limits)
                if t_.returncode != 0:
                    rec["result"] = "tests"
                    return rec
            except subprocess.TimeoutExpired:
                rec["result"] = "tests-timeout"
                return rec
            order = a.checks.split(",") if a.checks else FIRST.get(stem, "").split() + [c for c in allc if c not in FIRST.get(stem, "").split()]
            with lock:
                rank = {c: (-score[(stem, fn, c)], order.index(c)) for c in order}
            odd = []
            for c in sorted(order, key=lambda c: rank[c]):
                e = {**env, "SANDFS_REPO": str(r), "VERIF_OUT": str(d / "o")}
                try:
                    x = subprocess.run([PY, str(VERIF / "check.py"), c, "--jobs", "1", "--scale", str(a.scale)], cwd=VERIF, env=e, capture_output=True, text=True,
                                       timeout=400, preexec_fn=limits)
                except subprocess.TimeoutExpired:
                    odd.append(c + ":timeout")
                    continue
                if x.returncode == 1:
                    with lock:
                        score[(stem, fn, c)] += 1
                    rec["result"] = "caught"
                    rec["by"] = c
                    rec["odd"] = odd
                    return rec
                if x.returncode != 0:
                    odd.append(c + ":" + (x.stdout.strip().splitlines() or [""])[-1][-150:])
            rec["result"] = "SURVIVED"
            rec["odd"] = odd
            return rec
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(a.jobs) as ex:
        def record(t):
            rec = one(t)
            with lock, out.open("a") as f:
                f.write(json.dumps(rec) + "\n")

        list(ex.map(record, todo))
    print(collections.Counter(json.loads(l)["result"] for l in out.read_text().splitlines()))


main()
