#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS

TECH = "symbolic execution of the crate's LLVM IR with Z3 (bounded), counterexamples replayed natively"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, na=None, note=None, hook="the private modules re-exported under cfg(rust_raknet_verif)"):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why, files=files.split(),
                  mech=mech, observe=observe or [], na=na, note=note, hook=hook))

exec(open(os.path.join(H, "tools", "props.py")).read())

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["qtext"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                        "observe_at": x["observe"], "hook_needed": x["hook"]}}) + "\n")
checks, na = [], []
for x in P:
    if x["id"] not in CHECKS:
        na.append({"property": x["id"], "reason": x["na"] or "Check not built yet."})
        continue
    c = CHECKS[x["id"]]
    b = "; ".join(f"{e['entry']}: {e['bounds']}" for e in c["entries"] if not e.get("thorough"))
    note = ("Every path of the compiled crate code within the bounds is explored and every assertion decided by Z3 for all values of the symbolic inputs. "
            "Bounds: " + b + ". " + (x["note"] or "") + (" Outside: " + "; ".join(c["outside"]) + "." if c.get("outside") else "")
            + " Trusted: rustc, LLVM passes used for extraction, the symx interpreter, Z3, the models in /verif/model (see DESIGN.md).")
    checks.append({"property": x["id"], "quick_cmd": f"python3 bin/check.py {x['id']}",
                   "thorough_cmd": f"python3 bin/check.py {x['id']} thorough",
                   "evidence_file": f"evidence/{x['id']}.json", "technique": TECH, "level": "model_checking", "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 bin/check.py --setup",
           "hooks": {"guard": "cfg(rust_raknet_verif)", "enable": "RUSTFLAGS=\"--cfg rust_raknet_verif\" (set by bin/check.py)",
                     "source_commits": ["141feba"]},
           "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Exit 2 with a line 'problem: ...' means the check could not answer."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
