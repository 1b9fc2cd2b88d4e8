"""Watching the host: privilege drop, audit of host effects, directory digests."""

from __future__ import annotations

import os
import pathlib
import stat
import sys
import tempfile

NOBODY = 65534


def drop(scratch: str, rank: int) -> str:
    """Continue as an unprivileged user in a scratch directory of its own."""
    home = os.path.join(scratch, f"w{rank}")
    os.makedirs(home, exist_ok=True)
    if os.geteuid() == 0:
        os.chown(home, NOBODY, NOBODY)
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.chdir(home)
    os.environ["TMPDIR"] = home
    os.environ["HOME"] = home
    tempfile.tempdir = home
    return home


class Audit:
    """Records interpreter audit events (opens, removals, processes, sockets...) while switched on."""

    WATCHED = {
        "open", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown",
        "os.utime", "os.chdir", "os.fchdir", "os.listdir", "os.scandir", "os.putenv", "os.unsetenv", "os.system", "os.exec",
        "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty", "os.startfile", "subprocess.Popen", "socket.connect", "socket.bind",
        "socket.__new__", "socket.getaddrinfo", "shutil.rmtree", "shutil.copyfile", "shutil.move", "tempfile.mkstemp",
        "tempfile.mkdtemp", "os.kill", "os.killpg", "os.setxattr", "os.removexattr", "mmap.__new__", "ctypes.dlopen", "urllib.Request",
        "pty.spawn", "shutil.copytree", "shutil.chown", "shutil.copymode", "shutil.copystat", "shutil.make_archive", "os.walk", "pathlib.Path.glob",
        "pathlib.Path.rglob", "glob.glob",
    }

    def __init__(self) -> None:
        self.on = False
        self.events: list[tuple] = []
        self.total = 0
        sys.addaudithook(self._hook)

    def _hook(self, name, args):
        if self.on and name in self.WATCHED:
            self.total += 1
            if len(self.events) < 2000:
                self.events.append((name, *(str(a)[:300] if not isinstance(a, (str, int, type(None))) else a for a in args)))

    def __enter__(self):
        self.events = []
        self.on = True
        return self

    def __exit__(self, *exc):
        self.on = False
        return False

    def seen(self, *, ignore=lambda event: False) -> list[tuple]:
        return [event for event in self.events if not ignore(event)]


_audit: Audit | None = None


def audit() -> Audit:
    """One hook per process (hooks cannot be removed)."""
    global _audit
    if _audit is None:
        _audit = Audit()
    return _audit


def import_noise(event) -> bool:
    """Events of the interpreter's own lazy imports and of the harness's sources."""
    if event[0] not in ("open", "os.listdir", "os.scandir"):
        return False
    path = str(event[1])
    return path.endswith((".py", ".pyc", ".so")) or "/lib/python" in path or path.startswith(("/verif/mon", "/opt/venv", "/usr/lib/python"))


def disk(root) -> dict[str, tuple]:
    """Everything below root, without following links."""
    found: dict[str, tuple] = {}
    root = pathlib.Path(root)
    for base, dirs, files in os.walk(root):
        for name in dirs + files:
            full = pathlib.Path(base, name)
            info = full.lstat()
            rel = full.relative_to(root).as_posix()
            if stat.S_ISLNK(info.st_mode):
                found[rel] = ("l", os.readlink(full))
            elif stat.S_ISDIR(info.st_mode):
                found[rel] = ("d", None)
            elif stat.S_ISREG(info.st_mode):
                found[rel] = ("f", full.read_bytes())
            else:
                found[rel] = ("o", info.st_mode)
    return found


def stamps(root) -> dict[str, tuple]:
    found = {}
    for base, dirs, files in os.walk(root):
        for name in dirs + files:
            full = os.path.join(base, name)
            info = os.lstat(full)
            found[os.path.relpath(full, root)] = (info.st_mtime_ns, info.st_mode, info.st_size, info.st_ino)
    return found
