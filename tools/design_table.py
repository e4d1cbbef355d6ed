"""Write the table of planted bugs of DESIGN.md (between the two markers)."""
import glob, json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, E = "<!-- bugs -->", "<!-- /bugs -->"


def rows(folder):
    for f in sorted(glob.glob(os.path.join(ROOT, folder, "*", "meta.json"))):
        m = json.load(open(f))
        yield os.path.basename(os.path.dirname(f)), m


out = ["| planted bug | needs | caught by |", "|----|----|----|"]
for name, m in rows("seeded"):
    out.append("| {} | {} | {} |".format(name, m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, b = s.index(B) + len(B), s.index(E)
open(p, "w").write(s[:a] + "\n" + "\n".join(out) + "\n" + s[b:])
