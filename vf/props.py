"""Single source of properties.jsonl and MANIFEST.json: run
`python3 vf/props.py` after editing."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

FE = "src/cxy/lang/frontend/"
MI = "src/cxy/lang/middle/"
CG = "src/cxy/lang/backend/c/generate.c"
SL = "src/cxy/stdlib/"
CO = "src/cxy/core/"


def prop(id, title, statement, over, text, why, files, mech, tech, note, check=None, observe=None, na=None):
    P.append(dict(
        d={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
           "why_tests_cant": why,
           "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                       "observe_at": observe or ["output and exit status of the compiled program"]}},
        tech=tech, note=note, check=check or id.lower()))
    if na:
        NA.append({"property": id, "reason": na})


PBT = "property-based testing: generated programs, reference model as oracle, tape shrinking"
TRUST = ("sampled, not exhaustive; trusts the C compiler behind cxy, the Python model of the property and that the generated "
         "domain avoids constructs the language leaves undefined")
SNIP = "the repository's tests hold a few hand-written programs per feature and mostly check that they compile"

exec(open(os.path.join(V, "vf", "proplist.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["d"]) + "\n")
    na = {x["property"] for x in NA}
    m = {"version": 1, "setup_cmd": "python3 vf/build.py", "checks": [], "not_applicable": NA,
         "notes": "properties and checks are generated from vf/proplist.py by vf/props.py; no hooks in /repo are needed: every check works on the public behaviour of the built compiler, its libraries and the programs it produces"}
    for p in P:
        i = p["d"]["id"]
        if i in na:
            continue
        if not os.path.exists(os.path.join(V, "checks", p["check"] + ".py")):
            print("missing check", i)
            continue
        m["checks"].append({"property": i, "quick_cmd": "python3 checks/%s.py" % p["check"],
                            "thorough_cmd": "python3 checks/%s.py --thorough" % p["check"],
                            "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
