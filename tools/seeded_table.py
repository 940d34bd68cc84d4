#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md section 7 (run by hand; no check reads seeded/)."""
import json, os, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
late = set(open(os.path.join(here, '..', 'tools', 'first_missed.txt')).read().split())
print("| bug | needs | caught by |")
print("|---|---|---|")
for d in sorted(os.listdir(here)):
    p = os.path.join(here, d, 'meta.json')
    if os.path.exists(p):
        m = json.load(open(p))
        cut = lambda s: s.replace('|', '/').replace('\n', ' ')
        print(f"| {d} | {cut(m['needs'])} | {m['property']}{' (at first missed)' if d in late else ''} |")
