"""Write the 'fixed:' part of known-findings.txt from the fix commits of /repo and tools/fixes.txt (subject -> property)."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {}
for l in open(HERE + '/tools/fixes.txt'):
    if '|' in l:
        p, s = l.strip().split('|', 1)
        m[s] = p
act = [l.rstrip('\n') for l in open(HERE + '/tools/findings.txt')] if os.path.exists(HERE + '/tools/findings.txt') else []
out = ['# genuine defects of Patro: "fixed:" entries were repaired in /repo and suppress nothing;',
       '# "finding: property=<id> <contract>/<obligation> <text>" entries are reported as KNOWN-FINDING', '']
out += act
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        s = s[5:]
        if s not in m:
            print('no property for', s); continue
        out.append(f'fixed: property={m[s]} {h} {s}')
open(HERE + '/known-findings.txt', 'w').write('\n'.join(out) + '\n')
