"""Write the table of planted bugs into DESIGN.md (between the two markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {  # missed when planted: what was added
    "S03": "trees of four and more levels in the iteration workloads",
    "S09": "longer bulk lists, and the build with small nodes",
    "S12": "cycles of sizes above the largest class",
    "S14": "odd buffer sizes on single files",
    "S28": "long keys together with long values, up to 48 MiB",
    "S29": "signatures with a half zeroed, reversed, copied",
    "S33": "names that differ in spaces, tabs, dots or case, of one kind",
    "S34": "cycles with records of up to 2.2 MB",
    "S49": "many rounds of put and delete with the heap watched",
    "S50": "opening with all kinds of buffer settings, counted",
    "S63": "offsets beyond 4 GiB in the accounting",
    "S64": "failing writes while nodes of a wide tree go to a small buffer",
    "S66": "values of up to 9 MB in the statistics",
    "S67": "more than 65 536 free records",
    "S68": "values of up to 9 MB emptied and looked at",
    "S69": "maps of all kinds beside the one whose save fails",
    "S74": "cycles of one large and hundreds of small records, with a tighter bound",
    "S77": "offsets beyond 4 GiB in the cases of C11",
    "S78": "maps of 36 000 keys opened again and again",
    "S79": "the statistics of the hash file among the reading calls",
    "S82": "names that nearly agree in the memory database",
    "S84": "a value and a key of more than 2 GiB",
    "S52": "files of different settings compared byte for byte",
}
try:
    MISSED.update(json.load(open(os.path.join(V, "tools", "missed.json"))))
except FileNotFoundError:
    pass
rows = ["| bug | check | what breaks | needs | first |", "|---|---|---|---|---|"]
n = 0
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    c = lambda t: t.replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s | %s |" % (s, m["property"], c(m["what_it_breaks"]), c(m["needs"]),
                "missed; added: " + MISSED[s] if s in MISSED else "caught"))
    n += 1
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
b = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
t = t.replace("SEEDTABLE", b) if "SEEDTABLE" in t else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: b, t, flags=re.S)
open(p, "w").write(t)
print(n, "seeds")
