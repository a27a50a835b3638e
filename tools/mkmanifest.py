"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, sys
sys.path.insert(0, '/verif/tools')
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
T = {"proof": "contract-based deductive verification (Verus on functions extracted from /repo on every run); replay search on the real code",
     "exploration": "bounded check of the real code (stand-in: outside the verifier's reach)"}
checks = []
for p in ids:
    if p in PROPS:
        P = PROPS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                       "technique": P.get("technique", T[P["level"]]), "level": P["level"], "level_note": P.get("note", "see DESIGN.md")})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "not built yet")} for p in ids if p not in PROPS]
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo; the checks read and compile /repo's working tree. See DESIGN.md and KNOWN_FINDINGS."}, open('/verif/MANIFEST.json', 'w'), indent=1)
