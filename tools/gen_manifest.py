#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property whose monitor exists in the harness."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(os.path.join(V, "harness", f)).read() for f in sorted(os.listdir(os.path.join(V, "harness"))) if f.endswith(".go"))
have = set(re.findall(r'register\(&Prop\{ID: "(C\d\d)"', src))
hook = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif: export undo"], text=True).split()
T = {
 "C01": ("runtime monitoring: round-trip oracle with an independent text reader", "Every world text that occurred was read back and compared, view by view, with the world it came from; nothing is claimed about worlds that did not occur."),
 "C02": ("runtime monitoring: model-based online monitor of every containment view", "Every command of every generated history was followed by a full cross-check; trusts the forest model in harness/model.go."),
 "C03": ("runtime monitoring: model-based online monitor of item commands", "As C02, for item attributes and answers."),
 "C04": ("runtime monitoring: model-based online monitor of relationship commands", "As C02, for relationships and answers."),
 "C05": ("runtime monitoring: query answers against a closure computed from observed state", "Every query asked was decided against the observed relationships and nesting; trusts listings (C22 checks those)."),
 "C06": ("runtime monitoring: online monitor for dangling mentions and model comparison", "As C02, around deletions."),
 "C07": ("runtime monitoring: snapshot comparison around execute/undo, and along whole undo chains", "Every successful command executed was undone and compared; uses Command.Undo and, through a tagged hook, the app's own undo."),
 "C08": ("runtime monitoring: model of a linear history checked after every execute/undo/redo", "Uses a tagged hook that exports the app's undo and redo; the model is a list and a position."),
 "C09": ("runtime monitoring: offline replay of recorded histories, compared state by state", "Every recorded history was replayed on fresh worlds."),
 "C10": ("runtime monitoring: snapshots around commands that fail", "Every failing command executed was surrounded by snapshots of world and history."),
 "C11": ("runtime monitoring: snapshots around queries, and a twin that is never queried", "Every query executed was surrounded by snapshots and asked again."),
 "C12": ("runtime monitoring: hostile input fuzzing with a response-format monitor, in child processes watched for crashes and hangs", "A response reader of its own and the repository's parser both judge every response; a hang is 90 s without an answer, confirmed by a second run."),
 "C13": ("runtime monitoring: parse results against the attributes a renderer wrote, over many spellings", "Trusts the renderer's notion of well-formed commands (harness/gen.go), which was checked against grammar.peg."),
 "C14": ("runtime monitoring: round-trip oracle for items, relationships and trees", "As C01."),
 "C15": ("runtime monitoring: model of a store against observed directory contents in scratch directories", "Works on scratch directories as the file system shows them."),
 "C16": ("runtime monitoring with fault injection: save killed at, or failed at, each system call it makes", "Kills and failures happen at system-call boundaries of the saving process; loss of written data by the operating system is not simulated."),
 "C17": ("runtime monitoring: hostile texts given to the world reader, with an error oracle", "Every prefix of the sampled world texts was tried; larger texts are sampled."),
 "C18": ("race detector plus differential monitoring of concurrent against solo runs", "Go's race detector watched the executions that occurred; results were compared with solo runs."),
 "C19": ("runtime monitoring: comparison results against equality of observed content", "Every comparison made was decided by snapshots taken through queries."),
 "C20": ("race detector plus runtime monitoring of error derivation graphs", "Every error in a derivation graph was re-read after every derivation."),
 "C21": ("runtime monitoring: model-based online monitor of World API outcomes", "As C02, for what the World reports after each operation."),
 "C22": ("runtime monitoring: listings against content established by other queries", "What exists is established by fetching each id and pair the case mentions."),
 "C23": ("runtime monitoring: the real wasm bridge in Node, compared with the core run natively", "Runs cmd/wasm built for js/wasm with Go's own wasm_exec.js in Node."),
 "C24": ("runtime monitoring: the real console in a pseudo-terminal, compared with the core", "Runs cmd/cli in a pseudo-terminal and reads what it prints, as plain text."),
 "C25": ("runtime monitoring: model-based online monitor of the Tree API", "Every part of small trees is asked every question after each step; of large ones, a sample of the parts."),
 "C26": ("runtime monitoring: outcome, status and causes of every command against a model of what stood in its way", "Every command executed was decided by a model of the world as observed just before; nesting an item in itself, and the causes of an empty id, are left open."),
 "C27": ("runtime monitoring: single-thing readers under foreign, hand-written and spoilt texts, with an independent reader as oracle", "Spoilt texts are judged where the independent reader takes them for one thing; otherwise only crashes are."),
 "C28": ("runtime monitoring: model-based online monitor of several applications and direct changes on one World", "Steps of the applications are interleaved, not concurrent; an undo on ground that others changed is judged by what it must leave alone, consistency and the history."),
 "C29": ("runtime monitoring: what the parser finds in generated answers against what was written", "Which of several items or relationships stands in the object's text is left open, as is text behind a tree, world or status on its own."),
 "C30": ("runtime monitoring: the real web page's code with the real wasm core in Node, against an editor model and the native core", "React, its renderer and xterm are not installed here; stand-ins of them (harness/web) run the page's own code."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": "no check registered yet"})
        continue
    tech, note = T[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": tech,
                   "level": "fault_enumeration" if i == "C16" else "exploration", "level_note": note})
json.dump({"version": 1, "setup_cmd": "./setup.sh",
  "hooks": {"guard": "verif (Go build tag)", "enable": "go build -tags verif", "source_commits": hook},
  "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
