#!/usr/bin/env python3
# Prints the table of planted bugs of DESIGN.md.
import json, os, glob
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
print("| planted change | property | needs | breaks |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    print(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
