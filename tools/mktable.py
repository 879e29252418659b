"""regenerates the planted-bug table at the end of DESIGN.md from seeded/*/meta.json (all run by hand, see the text there)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"s-obs-replace": "missed at first; C22 was extended by attaching nothing", "s-var-copy-keep": "missed at first (as a probe); C18 now fills every alternative",
          "s-copy-nul": "missed at first (as a probe); C25 now copies zero characters"}
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append((m["property"], d, m["needs"], m["what_it_breaks"], "caught" + (" (%s)" % MISSED[d] if d in MISSED else "")))
t = "| property | change | needs | breaks | its check |\n|---|---|---|---|---|\n" + "".join("| %s |\n" % " | ".join(r) for r in sorted(rows))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: "<!-- table -->\n" + t + "<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
