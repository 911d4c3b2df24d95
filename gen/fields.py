"""regenerates vg/fields.txt, the members the references speak about (run on the tree the references were written for)"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vg"))
import extract, compare
p, _ = compare.load_program(extract.extract())
n = set()
for k, r in p.records.items():
    if k.startswith("placo::"):
        n.update(f["n"] for f in r["fields"])
open(os.path.join(V, "vg", "fields.txt"), "w").write("\n".join(sorted(n)) + "\n")
print(len(n))
