"""Single source of the property list: `python3 tools/props.py` writes properties.jsonl and MANIFEST.json."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SE = "EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/"
OT = "EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/"
CT = "EnvironmentSimulator/Modules/Controllers/"
RM = "EnvironmentSimulator/Modules/RoadManager/"
CM = "EnvironmentSimulator/Modules/CommonMini/"
PB = "EnvironmentSimulator/Modules/PlayerBase/"
LIB = "EnvironmentSimulator/Libraries/esminiLib/"
RML = "EnvironmentSimulator/Libraries/esminiRMLib/"
RP = "EnvironmentSimulator/Applications/replayer/"

P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, driver, technique, note, observe=None, variant="plain"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  driver=driver, technique=technique, note=note, observe=observe or [], variant=variant))


from proplist import define  # noqa: E402

define(globals())
CHECKS = {p["id"]: (p["driver"], p["variant"]) for p in P}


def main():
    with open(VERIF + "/properties.jsonl", "w") as f:
        for p in P + [n for n in NA]:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=p.get("observe", []), hook_needed=None))
            for x in d["anchors"]["files"]:
                assert os.path.exists("/repo/" + x), x
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="python3 tools/build.py --setup",
             checks=[dict(property=p["id"], quick_cmd="python3 tools/check.py " + p["id"],
                          thorough_cmd="python3 tools/check.py %s --tier thorough" % p["id"],
                          technique=p["technique"], level="model_checking", level_note=p["note"]) for p in P],
             not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in NA],
             notes="tools/props.py and tools/proplist.py are the source of this file and of properties.jsonl. Every check builds the drivers it "
                   "needs from /repo's working tree (content-hashed objects under /verif/.build, which git ignores).")
    with open(VERIF + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
