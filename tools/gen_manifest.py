#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and what is built."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
INP = "bounded exhaustive enumeration of inputs on the real checker against an explicit reference model"
T = {
    "C01": "bounded exhaustive enumeration of texts, truncations and cursor positions on the real checker",
    "C02": INP, "C03": INP, "C04": INP, "C05": INP,
    "C06": "bounded exhaustive enumeration of layouts; differential and reference-model oracle",
    "C07": INP,
    "C08": "exhaustive enumeration of omitted-semicolon subsets; differential and reference-model oracle",
    "C09": INP, "C10": INP,
    "C11": "bounded exhaustive enumeration of programs against an explicit reference resolver",
    "C12": "exhaustive enumeration of file placements and include graphs against a reference resolver",
    "C13": "exhaustive enumeration of include graphs against graph reachability",
    "C14": "exhaustive enumeration of include graphs with fault assignments against a reference model",
    "C15": "explicit exploration of all edit histories to a depth on the real project, differential oracle",
    "C16": "exhaustive enumeration of addition orders and hash iteration orders on the real project",
    "C17": "exhaustive enumeration of command-line scenarios on the real program against a reference model",
    "C18": "exhaustive enumeration of ranges on the real renderer against a reference renderer",
    "C19": "exhaustive exploration of message sequences on the real server with a protocol monitor",
    "C20": "stateless exploration of handler interleavings of the real server, convergence oracle",
    "C21": "exhaustive enumeration of cursor positions on the real server against a reference resolver",
    "C22": "exhaustive enumeration of item sequences on the real server against a reference outline",
}
N = {
    "*": "Every case inside the stated bounds is run on the code in /repo's working tree; trusts the reference model where it decides (cases it leaves unspecified are counted) and says nothing beyond the alphabets and bounds.",
}
built = set((V / "tools" / "built.txt").read_text().split())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "model checking: " + T[i],
            "level": "model_checking",
            "level_note": N.get(i, N["*"]),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./check.sh setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo are needed: everything is observed through public interfaces. See DESIGN.md.",
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
