#!/usr/bin/env python3
"""addstage.py: reads 'ID\\nRULE\\nstage lines...' blocks from stdin and inserts them into stages.py (developer convenience)."""
import sys
s = open('/verif/stages.py').read()
for block in sys.stdin.read().strip().split('\n\n'):
    lines = block.split('\n')
    pid, rule, st = lines[0], lines[1], lines[2:]
    body = ''
    for l in st:
        f = dict(x.split('=', 1) for x in l.split())
        sched = f.pop('schedule', None)
        body += '        dict(src="%s", prop="%s", build="%s", quick=%s, thorough=%s, weight=%s%s),\n' % (f['src'], f['prop'], f['build'], f['quick'], f['thorough'], f.get('weight', 1), ', schedule=True' if sched else '')
    s = s.replace('}\n\nRULES = {\n', '    "%s": [\n%s    ],\n}\n\nRULES = {\n    "%s": %r,\n' % (pid, body, pid, rule), 1)
open('/verif/stages.py', 'w').write(s)
