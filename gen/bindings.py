#!/usr/local/bin/python3-vt
"""regenerates spec/bindings.tsv from /repo (reviewed by hand afterwards)"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "vg"))
import bind
import compare
import extract
p, _ = compare.load_program(extract.extract(spec=[], bindings=True, only={"none"}))
with open(os.path.join(HERE, "..", "spec", "bindings.tsv"), "w") as f:
    f.write("# exposed class\tattribute\trole\tC++ entity (overloads separated by |); @ref: handed out by reference\n")
    for k, v in sorted(p.bindings.items()):
        if k[1] == "__cxx_class__" or any(a.kind == "other" for a in v):
            continue
        f.write("\t".join(k) + "\t" + " | ".join(sorted(bind.entry(a) for a in v)) + "\n")
