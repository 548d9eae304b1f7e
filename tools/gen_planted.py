#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from /verif/seeded."""
import os, json, re, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Planted last, and not run against the checks, but for C01-name-unquoted.
NEW = """C01-inherited-mechanism C02-only-child C03-twin-values C04-self-stale C04-verb-is-mechanism C05-crossing C06-twin-ends C07-create-unparented C07-delete-in-deleted C08-discard-one C09-raw-after-undo C10-nest-order C11-in-frees C12-own-code C13-newline C14-verb-only-async C15-list-cache C16-fallback C17-tree-is-world C18-same-name C19-version-zero C20-clear-reuse C21-nest-reports-parent C22-limit-self C23-status-text C24-percent C25-root-gone C26-clear-nothing C27-blank-tree C29-ok-code C30-empty-first C30-history-up""".split()
by = collections.defaultdict(list)
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    if d in NEW:
        continue
    by[m['property']].append(d.split('-', 1)[1] if '-' in d else d)
n = sum(map(len, by.values()))
t = f"{n} planted bugs; each was caught by the check of its own property (quick tier, seed 1) when it was last run; not all were run again with the last changes of the checks.\n\n| check | planted bugs it catches |\n|-|-|\n"
for p in sorted(by):
    t += f"| {p} ({len(by[p])}) | {', '.join(by[p])} |\n"
t += f"\nThe last batch's {len(NEW)} others are confirmed to break their property, build and pass the tests, but were not run against the checks any more: {', '.join(NEW)}.\n"
f = V + '/DESIGN.md'
s = open(f).read()
s = re.sub(r'(<!-- planted -->\n).*?(<!-- /planted -->)', lambda m: m[1] + t + m[2], s, flags=re.S)
open(f, 'w').write(s)
