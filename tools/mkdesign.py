"""Regenerates the tables of DESIGN.md (between the markers) from known_findings.json and seeded/."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fixes():
    out = ["| property | commit | defect |", "|---|---|---|"]
    for k in json.load(open(root + "/known_findings.json")):
        out.append(f"| {k['property']} | {k['commit']} | {k['what']} |")
    return out


def bugs():
    out = ["| seeded change | caught by | needs |", "|---|---|---|"]
    for d in sorted(os.listdir(root + "/seeded")):
        m = json.load(open(f"{root}/seeded/{d}/meta.json"))
        out.append(f"| {d} | {m['property']} | {m['needs']} |")
    return out


s = open(root + "/DESIGN.md").read()
for n, f in (("fixes", fixes), ("bugs", bugs)):
    s = re.sub(rf"(<!-- {n} -->\n).*?(<!-- end {n} -->)", lambda m: m[1] + "\n".join(f()) + "\n" + m[2], s, flags=re.S)
open(root + "/DESIGN.md", "w").write(s)
