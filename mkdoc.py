#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from props.py, checks.py and seeded/*/meta.json (run after editing those)."""
import json, os, re, glob
from props import PROPS, NA
from checks import CHECKS
HERE = os.path.dirname(os.path.abspath(__file__))
def props():
    o = []
    for p in PROPS:
        o.append("### %s %s" % (p["id"], p["title"]))
        if not p["claimed"]: o.append("Not applicable: " + p["reason"] + "\n"); continue
        c = CHECKS[p["id"]]; hs = sorted(set(j["harness"] for j in c["jobs"])); cf = sorted(set(j["cfg"] for j in c["jobs"]))
        o.append("*Decided by* `harness/{%s}.cpp` (%s): %s" % (",".join(hs), "+".join(cf), c["explanation"]))
        o.append("*Bounds*: " + c["bounds"])
        o.append("*Why it reaches what tests cannot*: " + p["why"] + ".\n")
    return "\n\n".join(o)
def seeds():
    o = ["| planted change | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
        m = json.load(open(f)); o.append("| `%s` | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"] + " quick")))
    return "\n".join(o)
def main():
    p = os.path.join(HERE, "DESIGN.md"); s = open(p).read()
    for k, v in (("properties", props()), ("seeds", seeds())):
        s = re.sub(r"<!-- %s -->.*<!-- /%s -->" % (k, k), lambda _: "<!-- %s -->\n%s\n<!-- /%s -->" % (k, v, k), s, flags=re.S)
    open(p, "w").write(s)
if __name__ == "__main__": main()
