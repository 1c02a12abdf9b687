"""seedtable.py OUT: rewrites the table of planted changes in DESIGN.md from devrun.sh's output"""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for line in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d\d) rc=(\d+) \d+s\s+(?:failing: )?([^|]*)", line)
    meta = json.load(open(f"{root}/seeded/{m[1]}/meta.json"))
    rows.append((m[1], m[2], "caught" if m[3] == "1" else "MISSED", meta["what_it_breaks"].replace("|", "/").replace("\n", " ")[:170]))
p = f"{root}/DESIGN.md"
s = open(p).read()
i = s.find("## 7. Planted changes")
j = s.find("\n## ", i + 5)
rest = s[j:] if i >= 0 and j >= 0 else ""
s = (s if i < 0 else s[:i]).rstrip() + "\n\n## 7. Planted changes\n\nEach passes the repository's tests; quick check of its own property, seed 1.\n\n| change | check | result | what it breaks |\n|---|---|---|---|\n"
s += "".join("| %s | %s | %s | %s |\n" % r for r in sorted(rows))
s += rest
open(p, "w").write(s)
