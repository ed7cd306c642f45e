#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json: `python3 meta.py` rewrites both"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
G, EA, GL, PSO, AOS, SMX = ("HeuristicFlow/src/Genetic/", "HeuristicFlow/src/EAGlobal/", "HeuristicFlow/src/Global/",
                            "HeuristicFlow/src/PSO/", "HeuristicFlow/src/AOS/", "HeuristicFlow/src/SimpleMatrix/")
AI = "abstract interpretation of the type-checked source (heap shapes with exact linear arithmetic, loops to fixpoint)"
NOTE = ("Every path of the phase is covered over arbitrary populations; a verdict is given only where the abstract "
        "state is exact enough, anything else is reported as undecided. Trusts the library models in /verif/engine, "
        "clang's type checker and real-number arithmetic.")
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=AI, note=NOTE, observe=(), level="other"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe), level=level))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, "meta_props.py")).read())

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d) + "\n")
    nas = {n["property"] for n in NA}
    m = dict(version=1, setup_cmd="bash setup.sh", checks=[
        dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
             thorough_cmd="python3 check.py %s thorough" % p["id"], technique=p["technique"], level=p["level"],
             level_note=p["note"]) for p in P if p["id"] not in nas], not_applicable=NA,
        notes="Static analysis only: no code of /repo is executed by a check. See DESIGN.md.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(m["checks"]), "checks")
