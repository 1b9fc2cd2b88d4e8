"""Runner: cases, observations, verdicts, shrinking, evidence."""

from __future__ import annotations

import collections
import hashlib
import contextlib
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import pkgutil
import queue as queue_mod
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("SANDFS_REPO", "/repo"))
OUT = pathlib.Path(os.environ.get("VERIF_OUT") or VERIF)
if str(REPO) not in sys.path:
    sys.path.insert(0, str(REPO))

from .hostside import drop  # noqa: E402

CASE_CPU_SECONDS = 30
DISTINCT_CAP = 400_000


class Violation(Exception):
    """The monitored property was observed to be broken."""

    def __init__(self, msg: str, key: str | None = None) -> None:
        super().__init__(msg)
        self.key = key


class Inconclusive(Exception):
    """The case left the specified area; nothing is concluded from the rest of it."""


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    """The harness itself (not the code under test) failed; exit 2."""


class Obs:
    """What the monitors saw."""

    def __init__(self) -> None:
        self.counts: collections.Counter[str] = collections.Counter()
        self.distinct: set[int] = set()
        self.samples: list[object] = []
        self.cases: set[int] = set()
        self.current = hashlib.blake2b(digest_size=8)
        self.seen_in_case = 0

    def begin(self) -> None:
        self.current = hashlib.blake2b(digest_size=8)
        self.seen_in_case = 0

    def end(self) -> None:
        """A case is distinct and non-trivial by what the monitors saw in it."""
        if self.seen_in_case:
            self.cases.add(int.from_bytes(self.current.digest(), "big"))

    def ev(self, name: str, n: int = 1) -> None:
        self.counts[name] += n

    def state(self, *parts: object) -> None:
        digest = hashlib.blake2b(repr(parts).encode("utf-8", "surrogatepass"), digest_size=8).digest()
        self.current.update(digest)
        self.seen_in_case += 1
        if len(self.distinct) < DISTINCT_CAP:
            self.distinct.add(int.from_bytes(digest, "big"))


class Family:
    """One workload family: gen(rng, index, tier) -> JSON case, run(case, obs)."""

    def __init__(self, name, quick, thorough, gen, run):
        self.name, self.quick, self.thorough, self.gen, self.run = name, quick, thorough, gen, run

    def count(self, tier: str, times: float = 1) -> int:
        """How many cases; `times` stretches sampled families, not enumerations (callables)."""
        value = self.quick if tier == "quick" else self.thorough
        if callable(value):
            return value()
        return int(value * times) if tier == "quick" else value


def _alarm(_sig, _frame):
    raise CaseTimeout()


def run_case(family: Family, case, obs: Obs) -> Violation | None:
    """Run one case; anything unexpected out of the code under test is a violation."""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
    try:
        family.run(case, obs)
    except Violation as exc:
        return exc
    except Inconclusive as exc:
        obs.ev("case left the specified area: " + str(exc)[:60])
    except CaseTimeout:
        return Violation(f"no result after {CASE_CPU_SECONDS} s of CPU time")
    except (HarnessError, KeyboardInterrupt):
        raise
    except RecursionError as exc:
        return Violation(f"unexpected RecursionError: {exc}")
    except Exception as exc:  # noqa: BLE001
        tail = traceback.format_exc().strip().splitlines()[-7:]
        return Violation(f"unexpected {type(exc).__name__}: {exc}\n" + "\n".join(tail))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return None


def shrink(family: Family, case, first: Violation, budget: float = 15.0):
    """Drop operations while the case still violates."""
    if not isinstance(case, dict) or not isinstance(case.get("ops"), list):
        return case, first
    deadline = time.monotonic() + budget
    best, reason = case, first

    def attempt(ops):
        trial = dict(best)
        trial["ops"] = ops
        try:
            got = run_case(family, trial, Obs())
        except HarnessError:
            return None
        return (trial, got) if got is not None and got.key == first.key else None

    size = max(1, len(best["ops"]) // 2)
    while time.monotonic() < deadline:
        progress = False
        index = 0
        while index < len(best["ops"]) and time.monotonic() < deadline:
            ops = best["ops"][:index] + best["ops"][index + size:]
            found = attempt(ops)
            if found:
                best, reason = found
                progress = True
            else:
                index += size
        if size == 1 and not progress:
            break
        size = max(1, size // 2)
    return best, reason


def load(prop_id: str):
    # Everything is imported now: workers give up their privileges and may then be unable to read these files.
    for name in ("gen", "model", "sim", "world", "hostside", "props.simcommon"):
        importlib.import_module("mon." + name)
    package = importlib.import_module("sandfs")
    for module in pkgutil.iter_modules(package.__path__):
        if not module.name.startswith("__"):
            with contextlib.suppress(Exception):
                importlib.import_module("sandfs." + module.name)
    return importlib.import_module(f"mon.props.{prop_id.lower()}")


def known_findings(prop_id: str) -> dict[str, str]:
    """Findings recorded for this property: mechanism key -> description."""
    found: dict[str, str] = {}
    path = VERIF / "KNOWN_FINDINGS.txt"
    if path.exists():
        for line in path.read_text(encoding="utf-8").splitlines():
            if line.startswith("finding: "):
                fields = line.split(" ", 3)
                if fields[1] == f"property={prop_id}":
                    found[fields[2].removeprefix("key=")] = fields[3]
    return found


def _worker(prop_id, tier, seed, jobs, rank, scale, deadline, scratch, known, out, stop):
    try:
        module = load(prop_id)
        obs = Obs()
        # The code under test must not be able to reach anything real, whatever it does.
        getattr(module, "setup_worker", drop)(scratch, rank)
        evaluations: collections.Counter[str] = collections.Counter()
        hit_known: collections.Counter[str] = collections.Counter()
        truncated = False
        families = module.families()
        plan = []
        for family in families:
            total = max(1, int(family.count(tier, getattr(module, "QUICK_TIMES", 1)) * scale))
            plan.append((family, total))
        # Interleave the families so that all of them progress evenly.
        todo = []
        for number, (family, total) in enumerate(plan):
            for index in range(rank, total, jobs):
                todo.append((index / total, number, index))
        todo.sort()
        for _, number, index in todo:
            if stop.is_set():
                break
            if time.monotonic() > deadline:
                truncated = True
                break
            family, total = plan[number]
            rng = random.Random(f"{prop_id}/{family.name}/{seed}/{index}")
            case = family.gen(rng, index, tier)
            if case is None:
                continue
            evaluations[family.name] += 1
            obs.begin()
            got = run_case(family, case, obs)
            obs.end()
            if len(obs.samples) < 2 and rank == 0:
                obs.samples.append({"family": family.name, "case": case})
            if got is not None and got.key is not None and got.key in known:
                hit_known[got.key] += 1
                continue
            if got is not None:
                small, reason = shrink(family, case, got)
                out.put(("violation", {
                    "family": family.name, "index": index, "case": small,
                    "reason": str(reason), "key": reason.key,
                }))
                stop.set()
                break
        out.put(("done", (rank, dict(obs.counts), obs.distinct, obs.cases, obs.samples,
                          dict(evaluations), dict(hit_known), truncated)))
    except BaseException:  # noqa: BLE001
        out.put(("error", traceback.format_exc()))
        stop.set()


def run_check(prop_id: str, tier: str, seed: int, jobs: int = 8, scale: float = 1.0) -> int:
    start = time.monotonic()
    module = load(prop_id)
    known = known_findings(prop_id)
    deadline = start + (300 if tier == "quick" else 780)
    scratch = tempfile.mkdtemp(prefix=f"sandfs-{prop_id}-")
    os.chmod(scratch, 0o777)
    context = mp.get_context("fork")
    out = context.Queue()
    stop = context.Event()
    if hasattr(module, "JOBS"):
        jobs = min(jobs, module.JOBS)
    workers = [
        context.Process(
            target=_worker,
            args=(prop_id, tier, seed, jobs, rank, scale, deadline, scratch, known, out, stop),
        )
        for rank in range(jobs)
    ]
    counts: collections.Counter[str] = collections.Counter()
    distinct: set[int] = set()
    cases: set[int] = set()
    samples: list[object] = []
    evaluations: collections.Counter[str] = collections.Counter()
    hit_known: collections.Counter[str] = collections.Counter()
    truncated = False
    violations: list[dict] = []
    errors: list[str] = []
    try:
        for worker in workers:
            worker.start()
        pending = jobs
        while pending:
            try:
                kind, payload = out.get(timeout=2)
            except queue_mod.Empty:
                if not any(worker.is_alive() for worker in workers):
                    errors.append("a worker died")
                    break
                if time.monotonic() > deadline + 90:
                    errors.append("watchdog: workers did not finish")
                    break
                continue
            if kind == "violation":
                violations.append(payload)
            elif kind == "error":
                errors.append(payload)
                pending -= 1
            else:
                pending -= 1
                _, c, d, dc, s, e, k, t = payload
                counts.update(c)
                distinct |= d
                cases |= dc
                samples.extend(s)
                evaluations.update(e)
                hit_known.update(k)
                truncated |= t
    finally:
        for worker in workers:
            if worker.is_alive():
                worker.join(timeout=5)
            if worker.is_alive():
                worker.kill()
        shutil.rmtree(scratch, ignore_errors=True)

    total = sum(evaluations.values())
    required = getattr(module, "REQUIRE", {})
    missing = [name for name, least in required.items() if counts[name] < least * min(1.0, scale)]
    wall = time.monotonic() - start
    evidence = {
        "property": prop_id,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": len(cases),
            "distinct_observations": len(distinct),
            "rule": module.RULE + " A case counts as distinct and non-trivial when the monitors "
            "recorded observations in it and their sequence differs from every other case's.",
            "samples": [_clip(sample) for sample in samples[:3]],
            "evaluations_per_family": dict(evaluations),
            "observed": dict(sorted(counts.items())),
            "truncated_by_time": truncated,
            "inconclusive_because": missing,
            "violation_details": [
                {"family": v["family"], "reason": v["reason"][:2000]} for v in violations
            ],
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "violations": len(violations),
        "wall_s": round(wall, 2),
    }
    target = OUT / "evidence"
    target.mkdir(parents=True, exist_ok=True)
    (target / f"{prop_id}.json").write_text(json.dumps(evidence, indent=1, ensure_ascii=False), encoding="utf-8", errors="backslashreplace")

    for key, number in hit_known.items():
        print(f"KNOWN-FINDING: property={prop_id} {known[key]} (seen {number} times)")
    if violations:
        first = violations[0]
        replays = OUT / "replays"
        replays.mkdir(parents=True, exist_ok=True)
        path = replays / f"{prop_id}-{first['family']}-{seed}-{first['index']}.json"
        path.write_text(json.dumps({"property": prop_id, **first}, indent=1, ensure_ascii=False), encoding="utf-8", errors="backslashreplace")
        print(first["reason"])
        print(f"VIOLATION property={prop_id} replay={path}")
        return 1
    if errors:
        print(errors[0])
        print(f"INCONCLUSIVE property={prop_id}: the check itself failed")
        return 2
    if missing:
        for name in missing:
            print(f"INCONCLUSIVE property={prop_id}: '{name}' observed only {counts[name]} times")
        return 2
    print(f"{prop_id} held: {total} cases, {len(distinct)} distinct observations, {wall:.1f} s")
    return 0


def _clip(value, limit: int = 3000):
    text = json.dumps(value, ensure_ascii=False, default=str)
    return value if len(text) <= limit else text[:limit] + "..."


def replay(path: str) -> int:
    record = json.loads(pathlib.Path(path).read_text(encoding="utf-8"))
    module = load(record["property"])
    scratch = tempfile.mkdtemp(prefix="sandfs-replay-")
    os.chmod(scratch, 0o777)
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            getattr(module, "setup_worker", drop)(scratch, 0)
            family = next(f for f in module.families() if f.name == record["family"])
            got = run_case(family, record["case"], Obs())
            print("no violation" if got is None else f"{got}")
            code = 0 if got is None else 1
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    code = os.waitstatus_to_exitcode(status)
    if code == 1:
        print(f"VIOLATION property={record['property']} replay={path}")
    return code
