#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, over_text, why, files, mechanism, state=(), observe=(), level_note=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, over_text=over_text, why=why, files=files,
        mechanism=mechanism, state=state, observe=observe, level_note=level_note,
    ))


CP = "pyclibrary/c_parser.py"
CL = "pyclibrary/c_library.py"
CT = "pyclibrary/backends/ctypes.py"
UT = "pyclibrary/utils.py"
IN = "pyclibrary/init.py"

exec(open(os.path.join(HERE, "tools", "props.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["over_text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    "observe_at": list(p["observe"]),
                    "hook_needed": None,
                },
            }) + "\n")
    na = {n["property"] for n in NOT_APPLICABLE}
    checks = []
    for p in PROPS:
        if p["id"] in na:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3-vt run.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3-vt run.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "symbolic execution of the real Python code with z3 deciding branches and assertions (bounded)",
            "level": "model_checking",
            "level_note": p["level_note"] or (
                "Every path within the stated bounds is explored and each assertion is discharged by z3 for all values of the symbolic inputs; counterexamples are replayed on the unmodified code. Trusts the engine in symx/, z3, and the assumptions listed in the evidence file."
            ),
        })
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "python3-vt tools/selftest.py",
            "checks": checks,
            "not_applicable": NOT_APPLICABLE,
            "notes": "No hooks: the checks import the code from /repo's working tree; environment stand-ins are installed from /verif at run time. run.py --replay FILE replays a violation on the real code.",
        }, f, indent=1)


main()
