"""The format's own conformance fixtures, judged by the specification: does the
specification describe this format?  (The code is not involved.)"""
import glob, json, os, sys, tempfile, shutil
from lib import *
import suite


def val(x):
    if x is None:
        return [0]
    if isinstance(x, bool):
        return [1, x]
    if isinstance(x, (int, float)):
        return [2, repr(x)]
    if isinstance(x, str):
        return [3, x]
    if isinstance(x, list):
        return [4, [val(y) for y in x]]
    return [5, [[k, val(y)] for k, y in x.items()]]


def main():
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="fixtures-", dir=BUILD)
    cases, names = [], []
    for f in sorted(glob.glob(os.path.join(VERIF, "fixtures", "*", "*.json"))):
        d = json.load(open(f, encoding="utf-8"))
        for t in d["tests"]:
            o = t.get("options", {})
            names.append(os.path.basename(f) + ": " + t["name"])
            case = {"id": len(cases), "give": 1, "enc": [], "dec": [], "tab": []}
            if "/decode/" in f:
                want = {"st": "err", "v": [0]} if t.get("shouldError") else {"st": "ok", "v": vin_tla(val(t["expected"]))}
                tab = table_for([t["input"]])
                case["dec"] = [{"own": 1, "doc": [cps(x) for x in t["input"].split("\n")], "indent": o.get("indent", 2), "strict": o.get("strict", True), "tab": tab}]
                case["obs"] = [{"k": "val", **want, "x": o.get("expandPaths") == "safe"}]
                case["tab"] = tab
            else:
                flat = o.get("flattenDepth")
                case["enc"] = [{"json": [], "v": vin_tla(val(t["input"])), "indent": o.get("indent", 2), "delim": ord(o.get("delimiter", ",")),
                                "fold": o.get("keyFolding") == "safe", "flat": suite.UNLIMITED if flat is None else flat}]
                case["obs"] = [{"k": "text", "st": "ok", "text": cps(t["expected"])}]
            cases.append(case)
    try:
        v, st, tr, gives = judge(cases, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    bad = [i for (i, _), ok in sorted(v.items()) if not ok]
    for i in bad:
        print("differs:", names[i], json.dumps(gives.get(i))[:600])
    print(f"fixtures: {len(cases)} judged, {len(bad)} differ, {st} states")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
