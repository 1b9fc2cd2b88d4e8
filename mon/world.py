"""Tagged trees, visibility views and generated shell commands shared by the confidentiality and robustness monitors.

Every file of a tagged tree holds lines with unique tokens and every node has a unique name, so that any output can be
attributed to the nodes it came from.
"""

from __future__ import annotations

import posixpath
import re
import shlex
from pathlib import PurePosixPath

from .model import Pol
from .sim import digest_real, real_policy

from sandfs import VirtualFileSystem, VisibilityView

TOKEN = re.compile(r"tok\d+z")
CLASSES = ["public", "private", "secret"]
PEOPLE = ["ann", "bob", "cyd"]
ODD_LABELS = ["*", "", "any", "all", "root", "admin", "ann*", "ann,bob", ".*", "None", "?", "public", "everyone"]
EVERYBODY = PEOPLE + ODD_LABELS
TAGS = ["red", "blue"]


def gen_tree(rng, *, size=(6, 14), policies, meta=0.4, prefix="n", twins=0.0):
    """A list of [path, kind, text, policy, metadata]; policies: kind of policy -> weight; twins: how often a name is used again."""
    nodes = []
    dirs = ["/"]
    count = rng.randint(*size)
    shape = rng.random()
    if shape < 0.02:
        count = rng.choice([40, 70, 130])
    deepest = rng.choice([12, 20, 40]) if shape > 0.97 else 5
    if deepest > 5:
        count += deepest
    for number in range(count):
        parent = dirs[-1] if deepest > 5 and rng.random() < 0.8 else rng.choice(dirs)
        name = f"{prefix}{number}q" + rng.choice(["", "", ".txt", ".md", " s", "é"])
        if twins and nodes and rng.random() < twins:  # the same name in another directory
            name = rng.choice(nodes)[0].rpartition("/")[2]
        path = ("" if parent == "/" else parent) + "/" + name
        if twins and any(node[0] == path for node in nodes):
            continue
        is_dir = rng.random() < (0.4 if deepest == 5 else 0.7) if number > 1 else number == 0
        lines = [f"{rng.choice(['alpha', 'beta', 'gamma alpha', ''])} tok{number * 10 + i}z {rng.choice(['todo', 'Beta', 'é', ''])}"
                 for i in range(rng.randint(1, 3))]
        text = rng.choice(["\n", "\n", "\r\n"]).join(lines) + rng.choice(["", "\n"])
        what = rng.choices(list(policies), list(policies.values()))[0]
        pol = {
            "none": {}, "ur": {"readable": False, **rng.choice([{}, {}, {}, {"writable": False}, {"append_only": True}, {"writable": False, "append_only": True}])}, "ro": {"writable": False}, "ao": {"append_only": True},
            "cls": {"classification": rng.choice(CLASSES)},
            "who": {"principals": sorted(rng.sample(PEOPLE, rng.randint(1, 2))) + ([] if rng.random() < 0.9 else crowd(rng, "who"))},
            "both": {"classification": rng.choice(CLASSES), "principals": [rng.choice(PEOPLE)]},
        }[what]
        if "principals" in pol and rng.random() < 0.15:  # words that a careless rule might read as everybody
            pol["principals"] = [rng.choice(ODD_LABELS)] + pol["principals"][: rng.randint(0, 1)]
        elif what == "cls" and rng.random() < 0.1:
            pol["classification"] = rng.choice(ODD_LABELS)
        tags = {}
        if rng.random() < meta:
            tags = {"tag": "red" if rng.random() < 0.65 else "blue"}
            if rng.random() < 0.3:
                tags["lvl"] = rng.choice([1, 2])
            if rng.random() < 0.3:
                tags.update({"own": rng.choice(["me", "you"]), "k4": True, "k5": 0})
        nodes.append([path, "d" if is_dir else "f", None if is_dir else text, pol, tags])
        if is_dir and path.count("/") < deepest:
            dirs.append(path)
    return nodes


def build(nodes, vfs=None):
    vfs = vfs or VirtualFileSystem()
    for path, kind, text, _, _ in nodes:
        if kind == "d":
            vfs.mkdir(path, exist_ok=path == "/")
        else:
            vfs.write_file(path, text)
    for path, _, _, pol, tags in nodes:
        set_policy(vfs, path, pol)
        vfs.get_node(path).metadata.update(tags)
    return vfs


def set_policy(vfs, path, pol):
    pol = dict(pol)
    pol["principals"] = frozenset(pol.get("principals", ()))
    vfs.set_policy(path, real_policy(Pol(**pol)))


def gen_view(rng, nodes):
    view = {}
    if rng.random() < 0.65:
        view["classifications"] = rng.sample(CLASSES, rng.randint(0, 2))
        if rng.random() < 0.8 and "public" not in view["classifications"]:
            view["classifications"].append("public")
    if rng.random() < 0.5:
        view["principals"] = rng.sample(PEOPLE, rng.randint(0, 2))
    if rng.random() < 0.35:
        pool = [n[0] for n in nodes]
        view["path_prefixes"] = rng.sample(pool, min(len(pool), rng.randint(1, 3)))
    if rng.random() < 0.3:
        view["metadata_filters"] = {"tag": "red" if rng.random() < 0.75 else "blue"}
        if rng.random() < 0.2:
            view["metadata_filters"]["lvl"] = 1
        if rng.random() < 0.2:
            view["metadata_filters"].update({"own": "me", "k4": True, "k5": 0})
    if rng.random() < 0.2:  # long lists, in any order and with repeats
        for key, tag in (("classifications", "cls"), ("principals", "them"), ("path_prefixes", "/aa/p")):
            if key in view:
                view[key] = view[key] * rng.randint(1, 2) + crowd(rng, tag)
                rng.shuffle(view[key])
    if rng.random() < 0.25:  # almost the labels that the nodes carry
        for key in ("classifications", "principals", "path_prefixes"):
            if view.get(key):
                view[key] = [nearly(rng, word) if rng.random() < 0.7 else word for word in view[key]]
        if "path_prefixes" in view:  # cut short, a path may end in "/", "." or ".."
            view["path_prefixes"] = [posixpath.normpath(path) for path in view["path_prefixes"]]
        if "metadata_filters" in view:
            view["metadata_filters"] = {key: nearly(rng, value) if isinstance(value, str) else rng.choice([str(value), value, [value], float(value) + 0.5])
                                        for key, value in view["metadata_filters"].items()}
            if rng.random() < 0.3:
                view["metadata_filters"][rng.choice(["tag", "Tag", "tag ", "own"])] = rng.choice(["None", "", "re", "Red", "*", False])
    if rng.random() < 0.1:
        view[rng.choice(["classifications", "principals"])] = [*(view.get("principals") or []), rng.choice(ODD_LABELS)]
    if rng.random() < 0.03:
        view[rng.choice(["path_prefixes", "classifications", "principals"])] = []
    elif "path_prefixes" in view and rng.random() < 0.05:
        view["path_prefixes"].append("/")
    return view


def nearly(rng, word):
    """Another label that looks much like this one."""
    return rng.choice([word.upper(), word.title(), word + " ", (" " + word) if word[:1] != "/" else word + "x", word[:-1] or "x", word + "*", word + word[-1:],
                       word.replace("e", "é"), word + "\n", word + "," + word, word.replace("a", "?")])


def crowd(rng, tag):
    """Names nobody else uses, before and after the others in any order."""
    return [f"{tag[:-1] if number % 2 else ('/zz' if tag[0] == '/' else 'zz')}{tag[-1]}{number}" for number in range(rng.choice([1, 3, 4, 9, 17, 40]))]


def make_view(view) -> VisibilityView:
    return VisibilityView(**view)


def allowed(view, policy) -> bool:
    """policy is the tuple of sim.policy_key."""
    classification, principals = policy[3], policy[4]
    if principals:
        return bool(set(principals) & set(view.get("principals") or ()))
    classes = view.get("classifications")
    return classes is None or classification in classes


def parents(path: str) -> list[str]:
    return [str(p) for p in PurePosixPath(path).parents]


def below(path: str, top: str) -> bool:
    return path == top or top == "/" or path.startswith(top + "/")


def is_hidden(view, state, path, *, listing=False) -> bool:
    """Whether the view hides the node (or, with listing, leaves it out of listings)."""
    kind, _, policy, tags = state[path][:4]
    if not allowed(view, policy) or any(not allowed(view, state[p][2]) for p in parents(path)):
        return True
    prefixes = view.get("path_prefixes")
    if prefixes is not None and not any(below(path, p) or below(p, path) for p in prefixes):
        return True
    wanted = view.get("metadata_filters") or {}
    if kind == "f" or listing:
        tags = dict(tags)
        return any(tags.get(key) != value for key, value in wanted.items())
    return False


def tokens(text) -> set[str]:
    return set(TOKEN.findall(text or ""))


def state_of(vfs):
    return digest_real(vfs)


def q(text: str) -> str:
    return shlex.quote(text)


def scrambled(text: str, longer: str = "") -> str:
    """Another text of the same shape, sharing no word with this one."""
    letters = "abcdefghijklmnopqrstuvwxyz"
    table = str.maketrans(letters + letters.upper() + "0123456789", letters[9:] + letters[:9] + (letters[9:] + letters[:9]).upper() + "5678901234")
    return text.translate(table) + longer


def undated(text: str) -> str:
    return re.sub(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d", "(date)", text)


class Commands:
    """Random commands over a fixed pool of paths."""

    def __init__(self, rng, nodes, *, search=None, hostile=0.0, cwd=None):
        self.rng = rng
        self.nodes = [(n[0], n[1]) for n in nodes] + [("/", "d")]
        self.search = search
        self.made = 0
        self.hostile = hostile
        self.cwd = cwd or "/"

    # -- paths ------------------------------------------------------------
    def spell(self, path: str) -> str:
        rng = self.rng
        roll = rng.random()
        if roll < 0.55:
            return path
        parts = [p for p in path.split("/") if p]
        if roll < 0.75:
            out = []
            for part in parts:
                if rng.random() < 0.3:
                    out.append(rng.choice([".", "nope/..", ""]))
                out.append(part)
            return "/" + "/".join(out) + rng.choice(["", "", "/"])
        if roll < 0.95:
            cwd = [p for p in self.cwd.split("/") if p]
            common = 0
            while common < min(len(cwd), len(parts)) and cwd[common] == parts[common]:
                common += 1
            rel = [".."] * (len(cwd) - common) + parts[common:]
            return "/".join(rel) or "."
        return "/../.." + path

    def path(self, kind=None) -> str:
        rng = self.rng
        pool = [p for p, k in self.nodes if kind is None or k == kind] or ["/"]
        roll = rng.random()
        if roll < 0.08:
            return q(self.fresh())
        if roll < 0.14:
            return rng.choice(["*", "/*", "*q*", "/*/*", "n*", "./*", "?*q*", "*.md", "/n*q/*.txt", "[mn]*"])
        target = rng.choice(pool)
        if roll < 0.2 and target != "/":
            head, _, tail = target.rpartition("/")
            if " " not in target:
                return head + "/" + tail[: rng.randint(1, 2)] + "*"
        return q(self.spell(target))

    def fresh(self) -> str:
        self.made += 1
        base = self.rng.choice([p for p, k in self.nodes if k == "d"])
        path = base.rstrip("/") + f"/w{self.made}x"
        self.nodes.append((path, self.rng.choice("fd")))
        return path

    def query(self) -> str:
        rng = self.rng
        return rng.choice(["tok", "alpha", "z", "Beta", "é", "", " ", f"tok{rng.randrange(14) * 10}z", "^.*$", "[a-z]", "."])

    def search_path(self, nav=True) -> str:
        rng = self.rng
        text = f"{self.search}?q={rng.choice(['tok', 'alpha', 'z', 'beta', 'o'])}"
        text += rng.choice(["", "", "&ignore_case=1", "&regex=1"])
        if nav and rng.random() < 0.7:
            text += rng.choice([p for p, _ in self.nodes])
        return q(text)

    def source(self, kind="f") -> str:
        if self.search and self.rng.random() < 0.15:
            return self.search_path()
        return self.path(kind)

    # -- commands ------------------------------------------------------------
    def reader(self) -> str:
        rng, p = self.rng, self.source
        n = rng.choice([0, 1, 2, 3, 5, 100])
        flags = "".join(rng.choice(["", "", f" {f}"]) for f in ("-i", "-n", "-e"))
        word = q(self.query() or "tok")
        return rng.choice([
            lambda: f"cat {p()}", lambda: f"cat {p()} {p()}", lambda: f"cat < {p()}", lambda: f"head -n {n} {p()}",
            lambda: f"head -c {n} {p()}", lambda: f"tail -n {n} {p()}", lambda: f"tail -c {n} {p()}", lambda: f"wc {p()}",
            lambda: f"head {p()} {p()}", lambda: f"tail {p()} {p()}",
            lambda: f"wc -l {p()} {p()}", lambda: f"grep{flags} {word} {p(None)}", lambda: f"grep -r{flags} {word} {p('d')}",
            lambda: f"rg{flags} {word} {p('d')}", lambda: f"search{flags} {word} {self.path('d')}",
            lambda: f"search{flags} --no-line-number {word} {self.path()}", lambda: f"search {word}",
            lambda: f"ls {p('d')}", lambda: f"ls -l {p(None)}", lambda: f"ls {p('d')} {p('d')}", lambda: f"tree {p('d')}",
            lambda: "ls -l", lambda: "tree", lambda: f"find {p('d')}", lambda: f"find {p('d')} -type f", lambda: f"find {p('d')} -type d",
            lambda: f"find -name {q(rng.choice(['nope', 'n1q', 'n2q.txt']))}", lambda: f"stat {p(None)}",
            lambda: f"echo {self.path()}", lambda: f"grep -r {word} {p('d')} {p('d')}", lambda: "pwd", lambda: "help",
        ])()

    def writer(self) -> str:
        rng, p = self.rng, self.path
        t = rng.choice(["new text", "'quoted words'", "x"])
        return rng.choice([
            lambda: f"touch {p()}", lambda: f"touch {p()} {p()}", lambda: f"mkdir {p()}", lambda: f"mkdir -p {p('d')}/sub/m{self.made}",
            lambda: f"mkdir -p {p('d')} {p('d')}/m{self.made} {p('d')}/k/m{self.made}",
            lambda: f"rm {p()}", lambda: f"rm -r {p()}", lambda: f"rm -rf {p('d')} {p()}", lambda: f"cp {p()} {p()}",
            lambda: f"cp -r {p('d')} {p()}", lambda: f"mv {p()} {p()}", lambda: f"cp {p('f')} {q(self.fresh())}",
            lambda: f"cp -r {p('d')} {q(self.fresh())}",
            lambda: f"mv {p()} {q(self.fresh())}", lambda: f"write {p()} {t}", lambda: f"write {p('f')} --append --text {t}",
            lambda: f"append {p('f')} {t}", lambda: f"echo {t} > {p()}", lambda: f"echo {t} >> {p()}",
            lambda: f"{self.reader()} > {p()}", lambda: f"{self.reader()} >> {p()}", lambda: f"cat < {p('f')} > {q(self.fresh())}",
        ])()

    def one(self) -> str:
        rng = self.rng
        roll = rng.random()
        if roll < 0.5:
            return self.reader()
        if roll < 0.72:
            return self.writer()
        if roll < 0.82:
            tail = rng.choice(["cat", "grep tok", "wc -l", "head -n 1", "cat -", "tail -n 1", "grep -n -i ALPHA -",
                               f"cat > {q(self.fresh())}", f"cat >> {self.path('f')}", f"grep tok {self.path('f')}"])
            return f"{self.reader()} | {tail}"
        if roll < 0.88:
            return f"V={self.path()} echo $V" if rng.random() < 0.3 else f"V={self.path('f')}\ncat $V"
        if roll < 0.94:
            return f"{self.reader()}\n{self.writer()}\n{self.reader()}"
        target = self.path("d")
        return f"cd {target}"


__all__ = ["Commands", "scrambled", "undated", "build", "gen_tree", "gen_view", "make_view", "is_hidden", "allowed", "tokens", "state_of", "set_policy"]
