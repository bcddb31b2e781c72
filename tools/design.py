"""Regenerate the property and seeded-change tables of DESIGN.md."""

import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases():
    """The cases of each property, from the harness sources."""
    out = {}
    import ast
    for f in sorted(os.listdir(HERE + "/harness")):
        if not re.match(r"p\d+_", f):
            continue
        tree = ast.parse(open(os.path.join(HERE, "harness", f)).read())
        for n in tree.body:
            if not isinstance(n, ast.FunctionDef):
                continue
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "case":
                    prop = d.args[0].value
                    b = [k.value for k in d.keywords if k.arg == "bounds"]
                    bounds = b[0].value if b else ""
                    doc = ast.get_docstring(n) or ""
                    out.setdefault(prop, []).append((n.name, doc, bounds))
    return out


def main():
    sys.path.insert(0, os.path.join(HERE, "tools"))
    found = []
    names = ("id title statement over text why files mech note observe claimed "
             "reason").split()

    def prop(*args, **kwargs):
        p = {"observe": (), "claimed": True, "reason": ""}
        p.update(zip(names, args), **kwargs)
        found.append(p)

    sys.modules["__main__"].prop = prop
    importlib.import_module("proplist")
    c = cases()
    rows = []
    for p in found:
        rows.append("### %s %s\n" % (p["id"], p["title"]))
        if not p["claimed"]:
            rows.append("Not applicable: %s\n" % p["reason"])
            continue
        rows.append("Anchored in %s. %s Why tests cannot settle it: %s\n"
                    % (", ".join("`%s`" % f.replace("runtimepy/", "")
                                 for f in p["files"]), p["note"].strip(), p["why"]))
        for name, doc, bounds in c.get(p["id"], []):
            rows.append("* `%s`: %s%s" % (name, doc.split("\n\n")[0].replace("\n", " ")
                                           + " " if doc else "",
                                           "over " + bounds if bounds else ""))
        rows.append("")
    seeded = ["| id | property | caught by its check | needs |", "|---|---|---|---|"]
    res = {}
    if os.path.exists(HERE + "/tools/seeded_results.json"):
        res = json.load(open(HERE + "/tools/seeded_results.json"))
    base = os.path.join(HERE, "seeded")
    for d in sorted(os.listdir(base)) if os.path.isdir(base) else []:
        m = json.load(open(os.path.join(base, d, "meta.json")))
        seeded.append("| %s | %s | %s | %s |" % (d, m["property"], res.get(d, "?"),
                                                 m["needs"]))
    path = os.path.join(HERE, "DESIGN.md")
    s = open(path).read()
    for tag, body in (("properties", rows), ("seeded", seeded)):
        a = s.index("<!-- %s -->" % tag) + len("<!-- %s -->" % tag)
        b = s.find("\n## ", a)
        b = len(s) if b < 0 else b
        s = s[:a] + "\n\n" + "\n".join(body).strip() + "\n" + s[b:]
    open(path, "w").write(s)


if __name__ == "__main__":
    main()
