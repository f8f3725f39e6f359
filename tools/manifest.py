#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks (ids not in the table go under not_applicable)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX, MC = "exploration", "model_checking"
CODEC = "Every packet and frame of the stated finite alphabet goes through the real encoder/decoder and is compared with an independent reference codec (mc/src/refcodec.rs). Trusts that reference, which is checked against itself (encode then decode) in the same run."
C = {
 "C01": (EX, "exhaustive enumeration of the packet alphabet on the real codec against an independent reference codec", CODEC),
 "C02": (EX, "exhaustive enumeration of the packet alphabet on the real codec against an independent reference codec", CODEC),
 "C03": (EX, "exhaustive enumeration of short byte strings, truncations, mutations and trailing contexts on the real decoder", CODEC),
 "C04": (EX, "exhaustive enumeration of malformed frames and unencodable packets against a reference acceptor", CODEC),
 "C05": (EX, "exhaustive enumeration of stream cuts, polls and read errors on the real parsers and engine", "Every cut of every listed packet sequence is replayed on the real parser, reader and engine; the expected packets come from the reference codec. Trusts the reference framing."),
 "C06": (EX, "exhaustive enumeration of packets, truncations and mutations at every parse level", "Every level of the real parser against full parsing by the reference codec."),
 "Q01": (MC, "explicit exploration of all operation sequences of the real queue against a list model, with torn-file enumeration", "Every history to the stated depth is replayed on the real queue in lock step with the model; every distinct content is saved, loaded, continued and truncated at every byte."),
}
def main():
    try:
        from manifest_more import C as M
        C.update(M)
    except ImportError:
        pass
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    NA = {}
    try:
        from manifest_more import NA
    except ImportError:
        pass
    out = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": [], "not_applicable": [],
           "notes": "No hooks: every check drives public APIs of the working tree, mirrored to target/ws (tools/mkws.py) and built offline. DESIGN.md explains each check; known_findings.txt lists the defects found and repaired or recorded."}
    for i in ids:
        if i in C:
            lv, t, n = C[i]
            out["checks"].append({"property": i, "quick_cmd": f"python3 tools/check.py {i} --tier quick",
                                  "thorough_cmd": f"python3 tools/check.py {i} --tier thorough", "technique": t, "level": lv, "level_note": n})
        else:
            out["not_applicable"].append({"property": i, "reason": NA.get(i, "No check is built for it yet.")})
    json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    try:
        import jsonschema
        jsonschema.validate(out, json.load(open("/root/.vp/MANIFEST.schema.json")))
    except ImportError:
        pass
main()
