"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json, and keeps the last column"""
import json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
s = open("DESIGN.md").read()
head = "| change | caught by | needs | missed at first, then added |\n|---|---|---|---|\n"
a = s.index(head) + len(head)
b = a
while s[b:b + 1] == "|":
    b = s.index("\n", b) + 1
last = {}
for row in s[a:b].splitlines():
    c = [x.strip() for x in row.strip("|").split("|")]
    last[c[0]] = c[3]
rows = []
for n in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{n}/meta.json"))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {last.get(n, '')} |\n")
open("DESIGN.md", "w").write(s[:a] + "".join(rows) + s[b:])
