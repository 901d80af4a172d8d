#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and engine/props.json from
engine/properties.py (one place for the text of every property)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import properties as P

def main():
    props, checks, na, meta = [], [], [], {}
    for p in P.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        props.append({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        c = {"property": p["id"],
             "quick_cmd": "python3 engine/check.py --property %s --tier quick" % p["id"],
             "thorough_cmd": "python3 engine/check.py --property %s --tier thorough" % p["id"],
             "evidence_file": "evidence/%s.json" % p["id"],
             "technique": p.get("technique", P.TECH), "level": p.get("level", "proof"),
             "level_note": p.get("note", "") + P.NOTE}
        checks.append(c)
        meta[p["id"]] = {"level": p.get("level", "proof"),
                         "assumptions": P.ASSUME + p.get("assume", []),
                         "explanation": p.get("explanation", P.EXPL)}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": P.SETUP, "hooks": P.HOOKS, "checks": checks,
           "not_applicable": na, "notes": P.NOTES}
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    json.dump(meta, open(os.path.join(HERE, "props.json"), "w"), indent=1)
    try:
        import jsonschema
        s = json.load(open("/root/.vp/MANIFEST.schema.json"))
        jsonschema.validate(man, s)
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in props:
            jsonschema.validate(p, s)
        print("schemas ok: %d properties, %d checks, %d not applicable" % (len(props), len(checks), len(na)))
    except ImportError:
        print("written (no jsonschema)")
main()
