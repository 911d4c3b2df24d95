#!/bin/bash
# builds the extractor and parses the current sources once (later runs reuse what has not changed)
cd "$(dirname "$0")" || exit 1
exec /usr/local/bin/python3-vt -c '
import sys, os
sys.path.insert(0, "vg")
import extract
d = "spec"
extract.extract(spec=[os.path.join(os.getcwd(), d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")])
print("ready")'
