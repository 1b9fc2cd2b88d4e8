"""Builds and verifies planted bugs: plant.py [ID ...] [--write] [--no-check] [--all-checks]

Definitions live in tools/plants/*.py (PLANTS lists). Each is applied to a scratch copy of /repo, which is removed
afterwards; verified there (tests pass, demo 0 on clean / non-zero on patched, only original lines changed), and the
property's check is run against the copy through SANDFS_REPO.
"""
import importlib.util, json, os, pathlib, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
REPO = pathlib.Path(os.environ.get("PLANT_REPO", "/repo"))
PY = "/opt/venv/bin/python"
BASE = "b74cc97"
LOCK = threading.Lock()
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}


def load():
    out = []
    for f in sorted((HERE / "plants").glob("*.py")):
        spec = importlib.util.spec_from_file_location(f.stem, f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.PLANTS
    ids = [p["id"] for p in out]
    assert len(set(ids)) == len(ids), "duplicate ids"
    return out


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env={**ENV, **kw.pop("env", {})}, **kw)


def one(p, write, check, allchecks):
    d = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
    msgs = []
    ok = keep = True
    try:
        r = d / "repo"
        shutil.copytree(REPO, r, symlinks=True)
        demo = d / "demo"
        demo.mkdir()
        (demo / "demo.py").write_text("import os, sys\nsys.path.insert(0, os.getcwd())\n" + p["demo"].lstrip("\n"))
        (demo / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\npy=/opt/venv/bin/python; [ -x "$py" ] || py=python3\n'
                                      'exec timeout 120 "$py" "$(dirname "$0")/demo.py"\n')
        res = sh(["bash", str(demo / "demo.sh")], r)
        if res.returncode != 0:
            ok = False
            msgs.append("demo fails on clean: " + (res.stderr + res.stdout)[-400:])
        for file, old, new in p["edits"]:
            f = r / file
            s = f.read_text()
            if s.count(old) != 1:
                return p["id"], False, f"{file}: old text found {s.count(old)} times: {old[:60]!r}"
            f.write_text(s.replace(old, new))
        diff = sh(["git", "diff"], r).stdout
        # removed lines must be original ones
        orig_hit = False
        for file in {e[0] for e in p["edits"]}:
            u0 = sh(["git", "diff", "-U0", "--", file], r).stdout
            blame = sh(["git", "blame", "-s", "HEAD", "--", file], r).stdout.splitlines()
            import re
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", u0, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                rng = range(a, a + n) if n else [a]
                for i in rng:
                    if blame[i - 1].startswith("^" + BASE[:6]):
                        orig_hit = True
                    elif n:
                        keep = False
                        msgs.append(f"changes a line of a fix commit: {file}:{i}")
        if not orig_hit:
            keep = False
            msgs.append("no original line touched")
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300"], r, env={"PYTHONPATH": str(r)})
        last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
        if "99 passed" not in last or "failed" in last:
            ok = False
            msgs.append("tests: " + last + " " + " ".join(l for l in t.stdout.splitlines() if l.startswith("FAILED"))[:300])
        res = sh(["bash", str(demo / "demo.sh")], r)
        if res.returncode == 0:
            ok = False
            msgs.append("demo passes with patch")
        if ok and keep and write:
            out = VERIF / "seeded" / p["id"]
            out.mkdir(parents=True, exist_ok=True)
            (out / "patch.diff").write_text(diff)
            shutil.copy(demo / "demo.py", out / "demo.py")
            shutil.copy(demo / "demo.sh", out / "demo.sh")
            os.chmod(out / "demo.sh", 0o755)
            (out / "meta.json").write_text(json.dumps({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, indent=1) + "\n")
        hits = None
        if ok and check:
            ids = [p["property"]]
            if allchecks:
                ids = [f"C{i:02d}" for i in range(1, 40) if (VERIF / f"mon/props/c{i:02d}.py").exists()]
            hits = []
            for c in ids:
                ev = d / "ev"
                res = sh([str(VERIF / "run.sh"), c], VERIF, env={"SANDFS_REPO": str(r), "VERIF_OUT": str(ev), "VERIF_SEED": "1", "VERIF_TIER": "quick"})
                if c == p["property"]:
                    msgs.insert(0, {0: "MISSED", 1: "caught"}.get(res.returncode, f"EXIT {res.returncode}"))
                    msgs.append((res.stdout.strip().splitlines() or [""])[-1][:160] if res.returncode != 1 else "")
                if res.returncode == 1:
                    hits.append(c)
            if allchecks:
                msgs.append("by " + " ".join(hits))
            if write and keep:
                with LOCK:
                    f = VERIF / "tools/caught.json"
                    known = json.loads(f.read_text()) if f.exists() else {}
                    known[p["id"]] = hits if allchecks else sorted(set(known.get(p["id"], [])) - {p["property"]} | set(hits))
                    f.write_text(json.dumps(dict(sorted(known.items())), indent=0) + "\n")
        return p["id"], ok and keep, " | ".join(m for m in msgs if m)
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    flags = {a for a in args if a.startswith("--")}
    want = [a for a in args if not a.startswith("--")]
    ps = [p for p in load() if not want or p["id"] in want or p["property"] in want]
    jobs = 2 if "--all-checks" in flags else 4
    with ThreadPoolExecutor(jobs) as ex:
        for id_, ok, msg in ex.map(lambda p: one(p, "--write" in flags, "--no-check" not in flags, "--all-checks" in flags), ps):
            print(id_, "ok" if ok else "BAD", msg, flush=True)


main()
