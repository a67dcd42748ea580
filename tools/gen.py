"""Writes properties.jsonl and MANIFEST.json (run from /verif: python3 tools/gen.py)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, I, G, H = "src/smolgp/kernels/base.py", "src/smolgp/kernels/integrated.py", "src/smolgp/gp.py", "src/smolgp/helpers.py"
S, SK, SR = "src/smolgp/solvers/solver.py", "src/smolgp/solvers/kalman.py", "src/smolgp/solvers/rts.py"
P, PK, PR = ("src/smolgp/solvers/parallel/solver.py", "src/smolgp/solvers/parallel/kalman.py", "src/smolgp/solvers/parallel/rts.py")
IS, IK, IR = ("src/smolgp/solvers/integrated/solver.py", "src/smolgp/solvers/integrated/kalman.py", "src/smolgp/solvers/integrated/rts.py")
Q, QK, QR = ("src/smolgp/solvers/integrated/parallel/solver.py", "src/smolgp/solvers/integrated/parallel/kalman.py",
             "src/smolgp/solvers/integrated/parallel/rts.py")
D = "src/smolgp/kernels/dense.py"

PROPS = []


def p(id, title, statement, over, text, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


exec(open(os.path.join(V, "tools", "props.txt")).read())

NA = {}
CLAIMED = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, "checks")) if f[0] == "c" and f[1:-3].isdigit())
exec(open(os.path.join(V, "tools", "notes.txt")).read())

ids = [x["id"] for x in PROPS]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in PROPS:
        assert len(x["title"]) <= 80, x["title"]
        if x["id"] in CLAIMED or x["id"] in NA:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
checks = []
for i in CLAIMED:
    assert i in ids, i
    checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python checks/run.py {i}",
                       thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python checks/run.py {i} --thorough",
                       evidence_file=f"evidence/{i}.json",
                       technique=TECH.get(i, TECHNIQUE), level="model_checking", level_note=NOTE.get(i, DEFAULT_NOTE)))
man = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks,
           not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())], notes=NOTES)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
try:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in PROPS:
        jsonschema.validate(x, sch)
except ImportError:
    pass
print(len(CLAIMED), "claimed,", len(NA), "not applicable")
