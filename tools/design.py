"""DESIGN.md = tools/DESIGN.head.md + the table of planted bugs (tools/caught.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(os.path.join(V, "tools/DESIGN.head.md")).read().rstrip("\n")
caught = json.load(open(os.path.join(V, "tools/caught.json")))
rows = ["", "", "## Planted bugs and what catches them", "",
        "`seeded/` holds %d changes that pass the existing tests; each breaks its property and has a demonstration. "
        "The check of that property (first column) was run (quick) against each; the seconds are with 8 idle cores." % len(caught),
        "", "| bug | needs | caught by its check, class of the violation (seconds) |", "|---|---|---|"]
for b in sorted(caught):
    m = os.path.join(V, "seeded", b, "meta.json")
    if not os.path.exists(m):
        continue
    meta = json.load(open(m))
    st, sec, cls = caught[b]
    c = cls[0].split(": ", 1)[-1] if cls else ""
    rows.append("| %s | %s | %s |" % (b, meta["needs"].replace("|", "\\|").replace("\n", " "),
                ("%s: %s (%s s)" % (meta["property"], c.replace("|", "\\|"), round(sec))) if st == 1 or st == "caught" else "missed (%s)" % st))
open(os.path.join(V, "DESIGN.md"), "w").write(head + "\n".join(rows) + "\n")
