"""The one table from which properties.jsonl and MANIFEST.json are written.

python3 tool/table.py
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # (property line, check or None, not-applicable reason or None)


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None,
         level="proof", na=None, state=None, observe=None, thorough=True):
    a = {"files": ["src/mathic/" + f if "/" not in f else f for f in files],
         "mechanism": [{"name": n, "where": "src/mathic/" + w if "/" not in w else w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": "src/mathic/" + w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    line = {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}
    assert len(title) <= 80, title
    chk = None
    if na is None:
        chk = {"property": id, "quick_cmd": "python3 analysis/check.py %s" % id,
               "technique": technique, "level": level, "level_note": note}
        if thorough:
            chk["thorough_cmd"] = "python3 analysis/check.py %s --tier thorough" % id
    P.append((line, chk, na))


TS = "static typestate dataflow over the compiler IR of every template configuration"
TRUST = ("Trusted: clang's front end and IR generation, the analyser, the stated meaning of std/memtailor calls "
         "(harness/shadow.h), entries addressed through one name per loop iteration; callbacks do not re-enter the "
         "structure. Template switches are enumerated, all run-time inputs are abstracted. ")
exec(open(os.path.join(ROOT, "tool", "entries.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for l, c, n in P:
        f.write(json.dumps(l) + "\n")
man = {"version": 1, "setup_cmd": "bash tool/build.sh /verif/build/vpdump",
       "checks": [c for l, c, n in P if c],
       "not_applicable": [{"property": l["id"], "reason": n} for l, c, n in P if n],
       "notes": "No hooks in /repo. Every check parses /repo's current sources; see DESIGN.md."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "checks")
