"""Regenerates MANIFEST.json from the registry of checks (run by hand when checks are added)."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import checks
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
T = checks.NOTES
m = {"version": 1, "setup_cmd": "bin/setup.sh", "checks": [], "not_applicable": [],
     "notes": "TLA+ specifications in spec/, conformance drivers in harness/, orchestration in lib/. No hooks in /repo: everything is observed through the public interface, the installable distance functions, the wrapped allocator (linker --wrap) and the internal headers. 'fix:' commits in /repo are listed in KNOWN_FINDINGS.txt, with two recorded findings of C25."}
for p in props:
    i = p["id"]
    if i in checks.R:
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": checks.R[i][0], "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
