#!/usr/bin/env python3
"""Rewrites known_findings.jsonl: the open findings, then one "fixed" entry per fix commit in /repo."""
import json, subprocess, sys
OPEN = [json.loads(l) for l in open('/verif/known_findings.jsonl') if '"open"' in l]
P = """C02,C03 C01 C02 C01,C05 C04 C01 C04 C01 C08 C08 C04 C04 C01 C04 C04 C27 C28 C04 C27 C08 C28 C14 C14 C14 C14,C18 C18 C15,C18 C14,C18
C18 C17 C13 C16 C12,C18 C18 C19 C19 C20 C20 C20 C21 C21 C21 C22 C22 C22 C22 C23 C23 C23 C21,C24 C24 C24 C24 C24 C25 C25 C25 C11 C11 C11 C11 C11
C07,C11 C11 C09,C10 C11 C10 C10 C09 C09 C09 C09,C26 C09 C09 C09 C11,C26 C11,C26 C11,C26 C09 C07 C07 C07,C11 C07,C29 C29 C30 C30 C30 C28 C08 C02""".split()
LATER = dict(l.split(None, 1) for l in open('/verif/tools/fixed_later.txt').read().split('\n') if l.strip())
log = [l.split(None, 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode().split('\n') if l][1:]
n = 0
with open('/verif/known_findings.jsonl', 'w') as f:
    for o in OPEN: f.write(json.dumps(o) + '\n')
    for i, (h, s) in enumerate(log):
        if not s.startswith('fix:'): continue
        ps = P[n] if n < len(P) else LATER.get(h)
        n += 1
        if not ps: print('no property for', h, s); continue
        for p in ps.split(','):
            f.write(json.dumps({"property": p, "key": h, "status": "fixed", "what": "fixed: property=%s %s %s" % (p, h, s[5:])}) + '\n')
