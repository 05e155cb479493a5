"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json")):
  m = json.load(open(p))
  rows.append("| %s | %s | %s | %s |\n" % (m["property"], os.path.basename(os.path.dirname(p)), m["what_it_breaks"], m["needs"]))
f = os.path.join(ROOT, "DESIGN.md")
s = open(f).read()
head = "| property | planted bug | what it breaks | needs |\n|---|---|---|---|\n"
a = s.index(head) + len(head)
m = re.compile(r"(\|.*\n)*").match(s, a)
open(f, "w").write(s[:a] + "".join(sorted(rows)) + s[m.end():])
print(len(rows))
