"""Extracts the outlines of the instances published with the library (assets/) into
harness/src/corpus.json: all items, and up to three bins per instance. Run once; the result is committed."""
import json

NAMES = "albano baldacci1 baldacci2 baldacci3 baldacci4 baldacci5 baldacci6 mao shirts swim trousers"


def ring(p):
    p = [[float(a), float(b)] for a, b in p]
    return p[:-1] if p[0] == p[-1] else p


out = []
for name in NAMES.split():
    d = json.load(open(f"/repo/assets/{name}.json"))
    e = {
        "name": name,
        "items": [
            {
                "demand": i["Demand"],
                "orients": i.get("AllowedOrientations"),
                "quality": i.get("BaseQuality"),
                "shape": ring(i["Shape"]["Data"]),
            }
            for i in d["Items"]
        ],
    }
    if "Strip" in d:
        e["strip"] = d["Strip"]["Height"]
    else:
        e["bins"] = [
            {
                "outer": ring(o["Shape"]["Data"]["Outer"]),
                "holes": [ring(h) for h in o["Shape"]["Data"].get("Inner", [])],
                "zones": [{"q": z["Quality"], "shape": ring(z["Shape"]["Data"])} for z in o.get("Zones", [])],
            }
            for o in d["Objects"][:3]
        ]
    out.append(e)
text = json.dumps(out, separators=(",", ":")).replace(".0,", ",").replace(".0]", "]")
open("/verif/harness/src/corpus.json", "w").write(text)
