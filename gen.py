#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os
import props

HERE = os.path.dirname(os.path.abspath(__file__))

NOTE = ("Exhaustive within the stated bounds: every feasible path of the harness through the crate's own LLVM IR is "
        "executed symbolically and z3 decides each branch and assertion over all inputs of the path. Trusted: symex's IR "
        "semantics (cross-checked natively on sampled paths in every run), z3, the reference in harness/src/refs. Bounds: ")


def line(pid, p):
    over, text = p["quantifier"]
    return {
        "id": pid,
        "title": p["title"],
        "statement": p["statement"],
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": p["why"],
        "anchors": {
            "files": p["files"],
            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
            "observe_at": p["observe"],
            "hook_needed": None,
        },
    }


with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for pid, p in list(props.PROPS.items()) + [(n["id"], n) for n in props.NOT_APPLICABLE]:
        assert len(p["title"]) <= 80, pid
        f.write(json.dumps(line(pid, p)) + "\n")

checks = []
for pid, p in props.PROPS.items():
    b = "; ".join(f"{e['name']}: {e['bounds']}" for e in p["entries"] if not e.get("only_thorough"))
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid}",
        "thorough_cmd": f"python3 check.py {pid} --tier thorough",
        "technique": "symbolic execution of the crate's LLVM IR with z3, counterexamples replayed natively",
        "level": p.get("level", "model_checking"),
        "level_note": NOTE + b,
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in props.NOT_APPLICABLE],
    "notes": "No hooks: the harness crate uses the public API of the crate only. Exit code 2 and a NO-VERDICT line mean that a check could not decide.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

# The last part of DESIGN.md.
MARK = "<!-- Below this line: written by gen.py -->\n"
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read().split(MARK)[0]
out = [text, MARK, "\n## Properties, bounds and assumptions\n"]
for pid, p in props.PROPS.items():
    out.append(f"\n### {pid}: {p['title']}\n\n{p['statement']}\n\n")
    for e in p["entries"]:
        out.append(f"* `{e['name']}`{' (thorough only)' if e.get('only_thorough') else ''}: {e['bounds']}\n")
    out.append("\nAssertions: " + "; ".join(f"{k} {v}" for k, v in p.get("asserts", {}).items()) + ".\n")
    for a in p.get("assumptions", []):
        out.append(f"\nAssumption: {a}\n")
for n in props.NOT_APPLICABLE:
    out.append(f"\n### {n['id']}: {n['title']} (not applicable)\n\n{n['statement']}\n\n{n['reason']}\n")
open(path, "w").write("".join(out))
