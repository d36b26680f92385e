#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (keeps the two in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CHECKS, NA = [], [], []

def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=(), note=None,
         technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=list(files), mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               state=[dict(name=a, meaning=b) for a, b in state],
                               observe_at=list(observe), hook_needed=None)))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CHECKS.append(dict(property=id, quick_cmd=f"./run_check.sh {id} quick", thorough_cmd=f"./run_check.sh {id} thorough",
                           technique=technique or "deterministic simulation with fault injection",
                           level="exploration", level_note=note))

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash build.sh /repo build && bash build.sh /repo build py",
         hooks=dict(guard="(none)", enable="No hooks were added to /repo: the seams are the C library calls the code makes "
                    "(interposed by the simulator executable) and the allocator (a header force-included when the check compiles /repo).",
                    source_commits=[]),
         checks=CHECKS, not_applicable=NA,
         notes="Every command rebuilds /repo's working tree into /verif/build (ignored by git). See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(CHECKS), "checks,", len(NA), "not applicable")
