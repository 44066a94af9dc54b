"""Write DESIGN.md from tools/design_*.md, the catalog, and the suites.

Run ``python3 tools/design.py`` in /verif after a change of the catalog, the
workloads, or the seeded changes.

"""

import glob
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from ocbmon import catalog  # noqa: E402


def section(prop):
    """Describe how one property is decided."""
    pid = prop["id"]
    path = os.path.join(VERIF, "ocbmon", "checks", pid.lower() + ".py")
    with open(path) as fin:
        text = fin.read()
    suite = importlib.import_module("ocbmon.checks." + pid.lower()).suite
    lines = ["### {:s} {:s}".format(pid, prop["title"]), "",
             prop["statement"], "",
             "- **Anchors:** " + "; ".join(
                 "{:s} ({:s})".format(mm["where"].split(": ", 1)[1],
                                      mm["where"].split(": ", 1)[0])
                 for mm in prop["anchors"]["mechanism"]) + ".",
             "- **Monitor:** {:s}. {:s}".format(prop["technique"],
                                                prop["note"]),
             "- **Workload:** {:s}.".format(suite.rule),
             "- **Observed at:** {:s}.".format("; ".join(
                 prop["anchors"]["observe_at"]))]
    if len(suite.assumptions) > 0:
        lines.append("- **Assumptions:** {:s}.".format("; ".join(
            suite.assumptions)))
    lines.append("- **Why tests do not settle it:** "
                 + prop["why_tests_cant"])
    groups = re.findall(
        r'@suite\.group\(([^)]*)\)\ndef (\w+)\(case\):\n    """(.*?)"""',
        text, re.S)
    if len(groups) > 0:
        lines.append("- **Groups** (base number of cases; the quick tier runs "
                     "six times as many, the thorough tier runs until its "
                     "budget ends): " + " ".join(
                         "`{:s}` {:s}: {:s}".format(
                             nn, cc.split(",")[0], " ".join(dd.split()))
                         for cc, nn, dd in groups))
    lines.append("")
    return lines


def main():
    """Write the document."""
    out = []
    with open(os.path.join(HERE, "design_head.md")) as fin:
        out.append(fin.read().rstrip())
    out += ["", "## Properties", ""]
    for prop in catalog.PROPS:
        out += section(prop)
    with open(os.path.join(HERE, "design_tail.md")) as fin:
        out.append(fin.read().rstrip())
    out += ["", "## Seeded changes", "",
            "Each of these changes builds, passes the 653 stable tests, and "
            "has a demonstration. All are caught by the quick check of the "
            "property that is named, unless noted.", "",
            "| Change | Property | Needs | Breaks |", "| --- | --- | --- | --- |"]
    for path in sorted(glob.glob(os.path.join(VERIF, "seeded", "*",
                                              "meta.json"))):
        with open(path) as fin:
            meta = json.load(fin)
        out.append("| {:s} | {:s} | {:s} | {:s} |".format(
            os.path.basename(os.path.dirname(path)), meta["property"],
            meta["needs"], meta["what_it_breaks"]))
    with open(os.path.join(VERIF, "DESIGN.md"), "w") as fout:
        fout.write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
