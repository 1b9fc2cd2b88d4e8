"""Writes MANIFEST.json from the checks present in mon/props and the properties in properties.jsonl."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
TECHNIQUE = {
    "C01": "runtime monitoring: online side-by-side reference model over generated histories",
    "C02": "runtime monitoring: online reference resolver over generated path spellings",
    "C03": "runtime monitoring: state, storage and event comparison around refused operations with injected faults",
    "C04": "runtime monitoring: version counting monitor against a reference model",
    "C05": "runtime monitoring: protected-node monitor on generated histories (API and shell)",
    "C06": "runtime monitoring: taint tokens in unreadable files watched in every output",
    "C07": "runtime monitoring: taint tokens and before/after comparison of hidden nodes",
    "C08": "runtime monitoring: exact output oracle under random views",
    "C09": "runtime monitoring: event log checker (exactly once, in order) against a reference model",
    "C10": "runtime monitoring: adapter/tree conservation checker with spied adapters",
    "C11": "runtime monitoring: conflict monitor with external changes injected between operations",
    "C12": "runtime monitoring: host file access audit and canaries around the directory adapter, unprivileged",
    "C13": "runtime monitoring: state digests at snapshot time compared after restores",
    "C14": "runtime monitoring: differential search oracle (index, scan, contents)",
    "C15": "runtime monitoring: search view oracle and leak monitor over interleaved shells",
    "C16": "runtime monitoring: reference shell interpreter on generated command lines",
    "C17": "runtime monitoring: exception and usability monitor on fuzzed command text",
    "C18": "runtime monitoring: spied commands, process audit and byte counting on fuzzed command text",
    "C19": "runtime monitoring: interpreter audit hook recording every host effect",
    "C20": "runtime monitoring: host directory comparison around export, materialize and host commands, unprivileged",
    "C21": "runtime monitoring: snippets with probes for the environment, output and audit of host effects",
    "C22": "runtime monitoring: provider call log checker with injected provider failures",
    "C23": "runtime monitoring: interleaved sandboxes with non-interference digests",
    "C24": "runtime monitoring: command line process compared with a shell over the same mounts",
    "C25": "runtime monitoring: spied commands compared with a structural interpretation of the script",
    "C26": "runtime monitoring: state assertions inside hooks and twin histories with reacting and failing hooks",
    "C27": "runtime monitoring: clock-bracketed operations with node time comparison",
    "C28": "runtime monitoring: recorded command words, glob and find results compared with an independent matcher",
}
LEVEL = {"C03": "fault_enumeration"}
props = [json.loads(line) for line in (ROOT / "properties.jsonl").read_text().splitlines()]
checks, missing = [], []
for prop in props:
    pid = prop["id"]
    if (ROOT / "mon" / "props" / f"{pid.lower()}.py").exists():
        checks.append({
            "property": pid,
            "quick_cmd": f"./run.sh {pid} --tier quick",
            "thorough_cmd": f"./run.sh {pid} --tier thorough",
            "technique": TECHNIQUE[pid],
            "level": "exploration",
            "level_note": "Monitored executions of the real code under seeded generated workloads; reach is what the workloads "
                          "visited (counted in the evidence), not all inputs.",
        })
    else:
        missing.append({"property": pid, "reason": "check not built yet"})
manifest = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": missing}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(checks), "checks;", "missing:", [m["property"] for m in missing])
