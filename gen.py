#!/usr/bin/env python3
"""Rewrites properties.jsonl and MANIFEST.json from props.py."""
import json
import os

from props import CHECKS, NOT_APPLICABLE

H = os.path.dirname(os.path.abspath(__file__))
with open(H + "/properties.jsonl", "w") as f:
    for pid, s in CHECKS.items():
        f.write(json.dumps({
            "id": pid, "title": s["title"], "statement": s["statement"],
            "quantifier": {"over": s["over"], "text": s["over_text"]}, "why_tests_cant": s["why"],
            "anchors": {"files": s["files"], "mechanism": [{"name": a, "where": b} for a, b in s["mech"]],
                        "observe_at": s["observe"], "hook_needed": s.get("hook")}}) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "JUNGLE_VERIF_HOOKS",
              "enable": "vbuild.py compiles with -DJUNGLE_VERIF_HOOKS=1. No source of Jungle needs a hook so far: the monitors sit at the public interface, "
                        "at intercepted system calls (link-time wrapping) and at compiler-inserted basic-block callbacks.",
              "source_commits": []},
    "checks": [{
        "property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"python3 check.py {pid}",
        "technique": s["technique"], "level": s["level"], "level_note": s["note"]} for pid, s in CHECKS.items()],
    "not_applicable": NOT_APPLICABLE,
}
with open(H + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for pid, s in CHECKS.items():
    assert len(s["title"]) <= 80, (pid, len(s["title"]))
    n = len([x for x in s["statement"].replace("e.g.", "").split(". ") if x.strip()])
    assert n <= 3, (pid, n)

# DESIGN.md: the section between the markers
MORE = {}
exec(open(H + "/design_more.py").read())
out = []
for pid, s in CHECKS.items():
    runs = "; ".join(f"{n} x {h} ({v}, `{q or 'defaults'}`; thorough `{t or 'defaults'}`)" for v, h, n, q, t in s["jobs"])
    out.append(f"### {pid} {s['title']}\n\n"
               f"*Quantifies over*: {s['over_text']}\n\n*Beyond tests because*: {s['why']}\n\n"
               f"*Deciding technique*: {s['technique']}.\n*Watched*: {'; '.join(s['observe'])}.\n"
               + (f"*Oracle*: {MORE[pid]}\n" if pid in MORE else "")
               + f"*Generation*: {s['rule']}\n*Runs*: {runs}.\n*Bounds and trust*: {s['note']}\n")
for x in NOT_APPLICABLE:
    out.append(f"### {x['property']} (not applicable)\n\n{x['reason']}\n")
d = open(H + "/DESIGN.md").read()
a, b = "<!-- properties: written by gen.py -->\n", "<!-- end of properties -->\n"
i, j = d.index(a) + len(a), d.index(b)
open(H + "/DESIGN.md", "w").write(d[:i] + "\n" + "\n".join(out) + "\n" + d[j:])
