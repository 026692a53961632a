"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from meta.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import meta  # noqa: E402


def main():
    ids = sorted(meta.P)
    for i in ids:
        assert os.path.exists(os.path.join(ROOT, "props", i + ".py")), i
        r = meta.P[i]["record"]
        assert len(r["title"]) <= 80, (i, len(r["title"]))
        for f in r["anchors"]["files"]:
            assert os.path.exists("/repo/" + f), f
        for m in r["anchors"]["mechanism"]:
            f, names = m["where"].split(":")
            src = open("/repo/" + f).read()
            for n in names.replace("/", ",").split(","):
                assert n.strip() in src, (i, n)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for i in ids:
            f.write(json.dumps(meta.P[i]["record"]) + "\n")
    note = ("Generated cases only: no violation among the cases counted in "
            "the evidence file, within the tolerances and size ranges stated "
            "in props/%s.py; not a proof. Trusts numpy, scipy, h5py and the "
            "reference models in /verif.")
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [
        {"property": i, "quick_cmd": "bash run.sh %s quick" % i,
         "thorough_cmd": "bash run.sh %s thorough" % i,
         "technique": meta.P[i]["technique"], "level": "exploration",
         "level_note": (note % i + " " + meta.P[i]["note"]).strip()}
        for i in ids], "not_applicable": [
            {"property": k, "reason": v}
            for k, v in sorted(getattr(meta, "NOT_APPLICABLE", {}).items())]}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
