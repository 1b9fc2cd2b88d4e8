"""C12: a directory adapter stays inside its root and is faithful."""

import os
import pathlib
import posixpath
import shutil
import tempfile

from ..core import Family, Violation
from ..gen import NAMES, text
from ..hostside import audit, disk, drop, import_noise, stamps
from ..world import TOKEN, q

from sandfs import FileSystemAdapter, SandboxShell, VirtualFileSystem
from sandfs.exceptions import SandboxError

RULE = ("A case lays out a root directory with files, directories and symbolic links (to files and directories inside and outside, "
        "absolute, relative, chained, dangling, looping) next to an outside directory with canaries, and drives the adapter "
        "directly and through a mount with hostile paths, as an unprivileged user; the monitor compares the outside byte for "
        "byte, looks for canary tokens in everything returned and checks the real path of every file the interpreter opens, "
        "creates, lists or removes; observed: distinct (layout, request) pairs.")
ASSUMPTIONS = ["the directory is not rearranged while a call is in progress", "text is valid Unicode, names fit the host filesystem"]
REQUIRE = {"requests": 8000, "escaping requests": 2500, "escaping requests refused": 2500, "opens inside the root": 3000,
           "outside compared": 8000, "texts read back": 3000, "mount commands": 3000}
QUICK_TIMES = 2

HOME = None


def setup_worker(scratch, rank):
    global HOME
    HOME = drop(scratch, rank)
    audit()


ESCAPES = [
    "..", "../outside", "../outside/secret", "../outside/new", "a/../../outside/secret", "./../outside/secret", "d/../../outside/d/deep",
    "../../../../../../../../etc/hostname", "../root/../outside/secret", "..//outside//secret", "d/./.././../outside/secret", "../rootx/file",
    "../root2", "../new-here",
]
LINKS = [
    ("lfile", "../outside/secret"), ("ldir", "../outside"), ("labs", "{out}/secret"), ("labsdir", "{out}/d"), ("d/lup", "../../outside/secret"),
    ("lchain", "lfile"), ("dang", "../outside/not-there"), ("loop", "loop"), ("lin", "d/b"), ("lindir", "d"), ("lroot", "."), ("d/lparent", ".."),
    ("letc", "/etc/hostname"), ("lpre", "../rootx/file"), ("lpredir", "../rootx"), ("ldangdir", "../outside/nodir"),
]
INSIDE = ["a", "b.txt", "d/b", "d/e/c", "x y", "é", "new", "d/new", "n1/n2/n3", "/a", "/abs/new", "//a", "///a", "/outside/secret", "/etc/hostname",
          "a//b", "./a", "d/../a", "d/./b", "d//b", "", ".", "/", "d", "d/", "a/", "back\\..\\x", "..x", "...", "d/..x/y", "~", "~root/x", "a\u0000b",
          "%2e%2e/x", "..\\outside\\secret", "C:/x", "x" * 300]


def gen_case(rng, index, tier):
    links = rng.sample(LINKS, rng.randint(0, 7))
    pool = ESCAPES + [name for name, _ in links] * 2 + [name + tail for name, _ in links for tail in ("/secret", "/new", "/x/y", "/..", "/../a")]
    ops = []
    for _ in range(rng.randint(10, 22) if tier == "quick" else rng.randint(20, 70)):
        path = rng.choice(pool) if rng.random() < 0.6 else rng.choice(INSIDE)
        if rng.random() < 0.1:
            path = "{out}/secret"
        if rng.random() < 0.15:
            path = rng.choice(["./", "/", "a/../", "d/../", "zz/../"]) + path
        ops.append([rng.choices(["read", "write", "delete", "list"], [5, 4, 2, 1])[0], path, text(rng, big=False), rng.choice([0, 0, 0, 1])])
    return {"links": links, "ops": ops, "relroot": rng.random() < 0.2, "linkroot": rng.random() < 0.15}


def lay(case):
    top = tempfile.mkdtemp(prefix="c12-", dir=HOME)
    root, out, near = (pathlib.Path(top, name) for name in ("root", "outside", "rootx"))
    for directory in (root / "d" / "e", out / "d", near):
        directory.mkdir(parents=True)
    (root / "a").write_bytes("in a\n".encode())
    (root / "d" / "b").write_bytes("in é b\r\n".encode())
    (root / "d" / "e" / "c").write_bytes(b"in c")
    (out / "secret").write_bytes(b"tok900z secret\n")
    (out / "d" / "deep").write_bytes(b"tok901z deep\n")
    (near / "file").write_bytes(b"tok902z near\n")
    for name, target in case["links"]:
        (root / name).symlink_to(target.format(out=out))
    return top, root, out


def escapes(root, path) -> bool:
    """Whether the request names something whose real place is outside the root."""
    if "\u0000" in path:
        return False
    while path.startswith("/"):
        path = path[1:]
    real = os.path.realpath(os.path.join(root, path))
    inside = os.path.realpath(root)
    return not (real == inside or real.startswith(inside + "/"))


def lexical_escape(path) -> bool:
    norm = posixpath.normpath("x/" + path.lstrip("/")) if path else "x"
    return not (norm == "x" or norm.startswith("x/"))


def outside_state(top, root):
    every = {k: v for k, v in disk(top).items() if k != "root" and not k.startswith("root/")}
    stamp = {k: v for k, v in stamps(top).items() if k != "root" and not k.startswith("root/")}
    return every, stamp


def check_host(seen, root, what, obs):
    inside = os.path.realpath(root)
    for event in seen:
        if import_noise(event):
            continue
        for path in event[1:3]:
            if not isinstance(path, str) or not path or event[0] in ("socket.__new__",):
                continue
            if event[0] == "open" and path == event[2]:
                continue  # the mode
            if event[0].startswith(("os.", "open", "pathlib", "glob", "shutil", "tempfile")):
                if path.startswith("<") or len(path) < 3 and event[0] == "open":
                    continue
                real = os.path.realpath(path)
                obs.ev("opens inside the root")
                if not (real == inside or real.startswith(inside + "/")):
                    raise Violation(f"{what}: the adapter did {event[0]} on {path} (really {real}), outside {inside}")
                break


def run_case(case, obs):
    top, root, out = lay(case)
    try:
        spelled = pathlib.Path(root)
        if case["linkroot"]:
            spelled = pathlib.Path(top, "rootlink")
            spelled.symlink_to("root")
        if case["relroot"]:
            spelled = pathlib.Path(os.path.relpath(spelled))
        adapter = FileSystemAdapter(spelled)
        before = outside_state(top, root)
        for what, path, body, version in case["ops"]:
            path = path.replace("{out}", str(out)[1:])
            inside_before = disk(root)
            bad = escapes(root, path)
            request = f"{what} {path!r} with links {case['links']}"
            got = ""
            with audit() as seen:
                try:
                    if what == "read":
                        got = adapter.read(path).content
                    elif what == "write":
                        adapter.write(path, body, version=version)
                    elif what == "delete":
                        adapter.delete(path)
                    else:
                        listing = adapter.list()
                        got = "\n".join(f"{k} {v.content}" for k, v in listing.items())
                    done = True
                except (ValueError, OSError, RuntimeError) as exc:
                    done, got = False, str(exc)
            events = seen.events
            obs.ev("requests")
            obs.state(case["links"], what, path, version)
            if TOKEN.search(got) and not TOKEN.search(body):
                raise Violation(f"{request} returned outside content {got!r}")
            if not os.path.isdir(root):
                raise Violation(f"{request}: the root directory itself is gone")
            after = outside_state(top, root)
            obs.ev("outside compared")
            if after != before:
                changed = [k for k in set(before[0]) | set(after[0]) if before[0].get(k) != after[0].get(k)] or "metadata only"
                raise Violation(f"{request} changed the outside: {changed}")
            if bad and what != "list":
                obs.ev("escaping requests")
                if done:
                    raise Violation(f"{request}: a request leaving the root was not refused")
                if disk(root) != inside_before:
                    raise Violation(f"{request}: the refused request changed the inside")
                obs.ev("escaping requests refused")
            check_host(events, root, request, obs)
            if what == "list" and done:
                for name in listing:
                    if escapes(root, name) or lexical_escape(name):
                        raise Violation(f"list returned {name!r}, which lies outside")
    finally:
        shutil.rmtree(top, ignore_errors=True)


# -- fidelity ---------------------------------------------------------------------------------
def gen_text(rng, index, tier):
    names = rng.sample(NAMES, 5)
    files = {}
    for _ in range(rng.randint(2, 6)):
        rel = "/".join(rng.choice(names) for _ in range(rng.randint(1, 3)))
        if not any(rel == o or rel.startswith(o + "/") or o.startswith(rel + "/") for o in files):
            files[rel] = [text(rng) for _ in range(rng.randint(1, 3))]
    if files and rng.random() < 0.02:
        files[rng.choice(sorted(files))] = [rng.choice(['row\n', 'é', 'x', 'ab\r\n']) * rng.choice([40_000, 150_000, 300_000, 1_100_000])]
    return {"files": files, "mount": rng.choice(["/m", "/x/y"]), "first": rng.choice(["adapter", "disk", "sandbox"]), "abs": rng.random() < 0.3,
            "encoding": rng.choice([None, None, "utf-8", "utf-16", "utf-32", "utf-16-le", "utf-7"])}


def run_text(case, obs):
    top = tempfile.mkdtemp(prefix="c12-", dir=HOME)
    try:
        options = {"encoding": case["encoding"]} if case.get("encoding") else {}
        codec = case.get("encoding") or "utf-8"
        adapter = FileSystemAdapter(pathlib.Path(top, "r"), **options)
        vfs = VirtualFileSystem()
        vfs.mount_storage(case["mount"], adapter)
        for rel, bodies in case["files"].items():
            asked = "/" + rel if case["abs"] else rel
            full = pathlib.Path(top, "r", rel)
            for version, body in enumerate(bodies):
                if case["first"] == "adapter":
                    adapter.write(asked, body, version=version)
                elif case["first"] == "sandbox":
                    vfs.write_file(f"{case['mount']}/{rel}", body)
                else:
                    full.parent.mkdir(parents=True, exist_ok=True)
                    full.write_bytes(body.encode(codec))
                got = {"read": adapter.read(asked).content, "list": adapter.list()[rel].content,
                       "another adapter": FileSystemAdapter(pathlib.Path(top, "r"), **options).read(rel).content,
                       "disk": full.read_bytes().decode(codec)}
                vfs.sync_storage(case["mount"])
                got["sync"] = vfs.read_file(f"{case['mount']}/{rel}")
                for label, seen in got.items():
                    obs.ev("texts read back")
                    if seen != body:
                        raise Violation(f"{rel!r} written by {case['first']} as {body!r} is {seen!r} through {label}")
                obs.state(body, rel, case["first"])
        found = {k for k, v in disk(top).items() if v[0] == "f"}
        if found != {"r/" + rel for rel in case["files"]}:
            raise Violation(f"files on disk {found}, expected {set(case['files'])}")
        for rel in case["files"]:
            if case["first"] == "sandbox":
                vfs.remove(f"{case['mount']}/{rel}")
            else:
                adapter.delete(("/" if case["abs"] else "") + rel)
        found = {k for k, v in disk(top).items() if v[0] != "d"}
        if found or not os.path.isdir(os.path.join(top, "r")) or adapter.list():
            raise Violation(f"after deleting every entry: files {found}, entries {list(adapter.list())}, root there: {os.path.isdir(os.path.join(top, 'r'))}")
        obs.ev("emptied roots")
    finally:
        shutil.rmtree(top, ignore_errors=True)


# -- through a mount ------------------------------------------------------------------------------
def gen_mount(rng, index, tier):
    links = rng.sample(LINKS, rng.randint(1, 7))
    names = [name for name, _ in links] + ["a", "d/b", "d", "new", "ldir/secret", "lfile", "lroot/a", "d/e/c", "../outside/secret", "n1/n2"]
    names += [name + "/new" for name, _ in links]
    ops = []
    for _ in range(rng.randint(8, 18) if tier == "quick" else rng.randint(20, 60)):
        one, two = q("/m/" + rng.choice(names)), q("/m/" + rng.choice(names))
        ops.append(rng.choice([f"cat {one}", f"echo tokenless > {one}", f"rm {one}", f"rm -r {one}", f"mv {one} {two}", f"cp {one} {two}",
                               f"cp -r {one} {two}", f"touch {one}", f"mkdir -p {one}", f"append {one} x", "find /m", "grep -r tok /",
                               f"mv {one} /out", f"cp {one} /out", "sync", "rm /out", f"ls {one}", f"echo x > /out\nmv /out {one}"]))
    return {"links": links, "ops": ops}


def run_mount(case, obs):
    top, root, out = lay(case)
    try:
        vfs = VirtualFileSystem()
        adapter = FileSystemAdapter(root)
        shell = SandboxShell(vfs)
        before = outside_state(top, root)
        with audit() as seen:
            vfs.mount_storage("/m", adapter)
        check_host(seen.events, root, "mount", obs)
        for command in case["ops"]:
            with audit() as seen:
                if command == "sync":
                    try:
                        vfs.sync_storage("/m")
                    except SandboxError:
                        pass
                    output = ""
                else:
                    result = shell.exec(command)
                    output = result.stdout + result.stderr
            events = seen.events
            obs.ev("mount commands")
            obs.state(case["links"], command)
            if TOKEN.search(output):
                raise Violation(f"{command!r} with links {case['links']} showed outside content {output!r}")
            if outside_state(top, root) != before:
                raise Violation(f"{command!r} with links {case['links']} changed the outside of the mounted directory")
            check_host(events, root, command, obs)
        for path, node in vfs.iter_files("/"):
            if TOKEN.search(node.read(vfs)):
                raise Violation(f"{path} holds outside content with links {case['links']}")
    finally:
        shutil.rmtree(top, ignore_errors=True)


def families():
    return [Family("escape", 800, 9000, gen_case, run_case), Family("fidelity", 500, 6000, gen_text, run_text),
            Family("mounted", 500, 6000, gen_mount, run_mount)]
