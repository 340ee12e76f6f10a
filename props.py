"""Source of properties.jsonl and MANIFEST.json (python3 props.py writes both)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, na=None, **anch):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why=why, files=files,
                  mech=mech, technique=technique, na=na, anch=anch))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as fh:
        for p in P:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            a.update(p["anch"])
            fh.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=p["quantifier"],
                                     why_tests_cant=p["why"], anchors=a)) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
        else:
            checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}",
                               thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                               technique=p["technique"][0], level="other", level_note=p["technique"][1]))
    man = dict(version=1, setup_cmd="python3 -m compileall -q pnsa run.py", checks=checks, not_applicable=na,
               notes="All checks parse /repo/src/probnum on every run with the standard-library ast module; nothing of the package is imported or executed.")
    with open(os.path.join(here, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
