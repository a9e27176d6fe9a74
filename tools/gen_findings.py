"""Writes /verif/known-findings.json: findings recorded, and the defects repaired in /repo."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFL = ("A FlexPath element with a non-zero offset seen through a reflection: FlexPath.transform mirrors the spine but keeps the "
        "sign of the offsets, so the element appears on the wrong side (the golden values of "
        "tests/flexpath.py::test_transform encode the present behaviour, so it cannot be repaired with the tests unedited)")
FINDINGS = [
    {"property": "C03", "what": "get_paths: " + REFL,
     "match": {"clause": "get_paths after reflecting a FlexPath with an offset",
               "event": {"op": "gpaths", "after": "reflecting a FlexPath with an offset"}}},
    {"property": "C04", "what": "flatten: " + REFL,
     "match": {"clause": "get_polygons() after reflecting a FlexPath with an offset",
               "event": {"op": "gp", "after": "reflecting a FlexPath with an offset"}}},
    {"property": "C05", "what": "copy(x_reflection=True): " + REFL,
     "match": {"clause": "get_polygons() after reflecting a FlexPath with an offset",
               "event": {"op": "gp", "after": "reflecting a FlexPath with an offset"}}},
    {"property": "C06", "what": "the bounding box cached by an earlier get_bounding_box() is returned after the elements or references "
     "of the cell are edited in place (translate, rotation or magnification attributes): elements do not know their cells, so "
     "nothing invalidates the cache",
     "match": {"clause": "get_bounding_box after editing what it holds",
               "event": {"op": "bbox", "after": "editing what it holds"}}},
]
FINDINGS.append(
    {"property": "C12", "what": "write_svg: cells whose names differ only in '#' and '_' get the same id, since '#' is replaced by '_' "
     "(another encoding would change the ids of all cells with an underscore, which users may rely on)",
     "match": {"clause": "two groups with the same id after confusing names", "event": {"op": "svg", "after": "confusing names"}}})
FINDINGS.append(
    {"property": "P02", "what": "transform(x_reflection=True): " + REFL,
     "match": {"clause": "transform: offsets", "event": {"op": "move", "f": "transform", "x": True, "after": "reflecting a FlexPath with an offset"}}})
# commit subject -> properties whose checks report the defect if it returns, and what failed
from fixes import FIXED
exec(open(os.path.join(V, "tools", "more_findings.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_findings.py")) else None
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        pid, what = FIXED[s[5:]]
        fixed.append("fixed: property=%s %s %s" % (pid, h, what))
json.dump({"findings": FINDINGS, "fixed": fixed}, open(os.path.join(V, "known-findings.json"), "w"), indent=1)
print(len(FINDINGS), "findings,", len(fixed), "fixed")
