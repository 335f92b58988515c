#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
FLOW = "path-sensitive interprocedural dataflow over compiler IR (clang -O0 LLVM facts)"


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, technique=None, note=None, na=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CHECKS.append(dict(property=id, quick_cmd="python3 check.py %s" % id, thorough_cmd="python3 check.py %s --tier thorough" % id,
                           technique=technique or FLOW, level="other", level_note=note))


CHECKS = []
exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

if __name__ == "__main__":
    PROPS.sort(key=lambda p: p["id"]); CHECKS.sort(key=lambda p: p["property"]); NA.sort(key=lambda p: p["property"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    json.dump(dict(version=1, setup_cmd="python3 sa/build.py", checks=CHECKS, not_applicable=NA,
                   notes="Static analysis only: every check recompiles /repo's current sources to LLVM IR (no code of notmuch is run) and decides the property on the extracted facts. No hooks are added to notmuch."),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(PROPS), "properties;", len(CHECKS), "checks;", len(NA), "not applicable")
