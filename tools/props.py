"""Source of properties.jsonl and MANIFEST.json: run after editing."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = "model_checking"
TECH = ("symbolic execution of the real source (instrumented at import) with "
        "z3 deciding every branch and assertion; counterexamples and path "
        "witnesses replayed on the uninstrumented code")
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=(),
         claimed=True, reason=""):
    PROPS.append(dict(locals()))


from proplist import *  # noqa: E402,F401,F403


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w}
                                          for n, w in p["mech"]],
                            "observe_at": list(p["observe"])},
            }) + "\n")
    man = {"version": 1, "setup_cmd": "./check --selftest", "checks": [],
           "not_applicable": []}
    for p in PROPS:
        if p["claimed"]:
            man["checks"].append({
                "property": p["id"],
                "quick_cmd": "./check %s --tier quick" % p["id"],
                "thorough_cmd": "./check %s --tier thorough" % p["id"],
                "technique": TECH, "level": LEVEL, "level_note": p["note"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
