"""Writes /verif/DESIGN.md."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
import meta  # noqa: E402
import design_text as T  # noqa: E402


def subchecks(pid):
    from vf import core
    importlib.import_module("props." + pid)
    return core.REGISTRY[pid]


def first(text):
    t = " ".join(text.split())
    return t


def seeded():
    rows = []
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        sid = f.split("/")[-2]
        r = T.CAUGHT.get(sid, "own check, quick")
        rows.append("| %s | %s | %s | %s |" % (
            sid, m["property"], first(m["needs"]).replace("|", "/"), r))
    return rows


def main():
    out = [T.HEAD]
    wall = {}
    for f in glob.glob(os.path.join(ROOT, "evidence", "C*.json")):
        d = json.load(open(f))
        if d.get("tier") == "quick":
            wall[d["property"]] = d
    out.append("## Properties\n")
    for pid in sorted(meta.P):
        r = meta.P[pid]["record"]
        oracle, bounds = T.T[pid]
        out.append("### %s %s\n" % (pid, r["title"]))
        out.append("*Property.* %s\n" % r["statement"])
        out.append("*Decided by* %s. *Oracle:* %s. *Bounds:* %s.\n"
                   % (meta.P[pid]["technique"], oracle, bounds))
        out.append("*Why tests cannot.* %s\n" % r["why_tests_cant"])
        out.append("Sub-checks (cases quick/thorough):\n")
        for s in subchecks(pid):
            if pid in ("C45", "C46", "C48"):
                doc = first(s.rule).split(":")[0]
            else:
                doc = first(s.rule)
            out.append("* `%s` (%d/%d): %s" % (s.name, s.quick, s.thorough,
                                               doc))
        out.append("")
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        lines = f.read().splitlines()
    out.append(T.TAIL % {"nfixed": sum(x.startswith("fixed:")
                                       for x in lines)})
    rows = seeded()
    out.append(T.SEEDED % {"n": len(rows)})
    out.append("| planted bug | property | needs | caught by |")
    out.append("|---|---|---|---|")
    out += rows
    out.append("")
    out.append(T.MUTANTS)
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


main()
