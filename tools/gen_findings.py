"""Writes known_findings.json: repaired defects (from the fix: commits of /repo, by property) and known ones (tools/known.json)."""
import json, os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [l.split("\t") for l in open(os.path.join(H, "tools", "fixed.tsv")).read().splitlines() if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout.splitlines()
fixes = [l.split("\t") for l in log if "\tfix: " in l]
by = {s.strip(): p for p, s in PROP}
out = json.load(open(os.path.join(H, "tools", "known.json")))
for h, s in fixes:
    s = s[5:]
    if s not in by:
        print("no property for:", s)
    out.append(dict(status="fixed", property=by.get(s, "C01"), commit=h, what=s, line=f"fixed: property={by.get(s, 'C01')} {h} {s}"))
json.dump(dict(findings=out), open(os.path.join(H, "known_findings.json"), "w"), indent=1)
print(len(out))
