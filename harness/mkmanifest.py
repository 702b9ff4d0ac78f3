"""Writes MANIFEST.json from settings.py and properties.jsonl."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import settings  # noqa: E402

root = os.path.dirname(HERE)
ids = [json.loads(line)["id"] for line in open(os.path.join(root, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "./check setup",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check builds its driver and its worker from /repo's working tree (go test -c in /verif/harness, module replace => /repo), runs, and removes what it built. "
             "Nothing in /repo is instrumented: fault injection and the stand-in system log come from overlays of the standard library generated at build time. See DESIGN.md.",
}
for i in ids:
    c = settings.PROPS.get(i)
    if not c:
        m["not_applicable"].append({"property": i, "reason": settings.NOT_APPLICABLE.get(i, "its check is not built yet")})
        continue
    m["checks"].append({
        "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
        "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": settings.BASE + c["note"],
    })
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
