#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: the table of planted bugs and the table of entries."""
import glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS

# missed when planted, and what was added
FIRST = {
    "s07": "h_outage", "s08": "h_timing_long", "s09": "h_nacked_many", "s13": "h_flush_patient", "s21": "h_layout of all packets",
    "s26": "h_control_busy", "s33": "h_reassembly_many", "s34": "motd lengths", "s37": "h_packed with 80 frames", "s39": "h_applied_many",
    "s40": "h_lossless", "s42": "h_connect_garbage", "s43": "h_dropped_early", "s44": "h_backlog", "s47": "h_dropped_early",
    "s50": "h_disconnected with trailing bytes", "s51": "h_applied_many", "s52": "h_reassembly_crowd", "s53": "h_ordered_far", "s54": "h_mtu", "s55": "h_version_many", "s57": "h_both_close", "s58": "h_promptly_idle", "s59": "h_pong with long motds",
    "s56": "C46", "s60": "h_promptly_last", "s61": "h_flush_silent", "s62": "h_listener_calls (C48)", "s63": "mtu of h_control", "s64": "h_version_connected"}
FIRST.update(json.load(open(os.path.join(H, "tools", "first.json"))) if os.path.exists(os.path.join(H, "tools", "first.json")) else {})


def between(s, name, text):
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + "\n" + text + "\n" + s[j:]


rows = ["| planted bug | property | needs | first missed, added then |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {FIRST.get(n.split('-')[0], '')} |")
ent = ["| property | entry | tier | bounds |", "|---|---|---|---|"]
for p, c in CHECKS.items():
    for e in c["entries"]:
        ent.append(f"| {p} | {e['entry']} | {'thorough' if e.get('thorough') else 'both' if not any(t.get('replaces') == e['entry'] for t in c['entries']) else 'quick'} | {e['bounds'].replace('|', '/')} |")
d = os.path.join(H, "DESIGN.md")
s = open(d).read()
s = between(s, "seeded", "\n".join(rows))
s = between(s, "entries", "\n".join(ent))
open(d, "w").write(s)
