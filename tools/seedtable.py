#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| bug | property | needs |')
print('|---|---|---|')
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    print(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |")
