"""The one table behind properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, technique, note, level="model_checking", state=None,
      claimed=True):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, level=level, state=state, claimed=claimed))


TLC_REPLAY = "TLA+ specification checked with TLC; every emitted transition replayed into the real Mock CA"
TABLE = "TLA+ decision specification enumerated with TLC; every emitted case replayed into the real code"

exec(open(os.path.join(HERE, "tools", "props_table.py")).read())

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
            fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                 "quantifier": {"over": p["over"], "text": p["text"]},
                                 "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks = [{"property": p["id"], "quick_cmd": f"./check {p['id'].lower()} quick",
               "thorough_cmd": f"./check {p['id'].lower()} thorough", "technique": p["technique"],
               "level": p["level"], "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"}
              for p in PROPS if p["claimed"]]
    man = {"version": 1,
           "setup_cmd": "mkdir -p build && gcc -O2 -shared -fPIC -o build/clock.so harness/clock.c -ldl",
           "checks": checks, "not_applicable": NOT_APPLICABLE,
           "notes": "No hooks: the checks only use public functions and data of the code. "
                    "Specifications are in spec/*.tla, the replay harness in harness/, one module per property in checks/."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
