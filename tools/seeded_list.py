"""rewrite the list of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines = []
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    lines.append("* %s: %s (needs: %s)" % (os.path.basename(os.path.dirname(d)), m["what_it_breaks"], m["needs"]))
p = here + "/DESIGN.md"
s = open(p).read()
i = s.index("* C01a:")
j = s.index("## 7. Refactorings")
open(p, "w").write(s[:i] + "\n".join(lines) + "\n\n" + s[j:])
