"""writes /verif/MANIFEST.json from the table of claimed checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ specification checked with TLC; trace validation of the compiled code against it"
LV = ("Every recorded call of the compiled code is accepted by TLC as a step of the specification instantiated with the real "
      "constants; the input space is sampled or enumerated as evidence/ records, so it is not a proof for unexplored inputs. Trusts TLC, "
      "the Java twins of heavy operators (checked against their TLA+ definitions by MC_BigInt), the drivers and the SHAKE256 stand-in. ")
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the drivers include its headers and observe through the SHAKE256 stand-in (shim/) and call boundaries."}
for p in props:
    if p in CLAIMS:
        m["checks"].append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                            "technique": TRACE + (" + " + CLAIMS[p][1] if CLAIMS[p][1] else ""), "level": "model_checking", "level_note": LV + CLAIMS[p][0]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet (work in progress)")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in m["checks"]])
