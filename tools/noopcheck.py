#!/usr/bin/env python3
"""Warns about a planted bug next to a `) {` that is not the opening of a function: a statement that does
nothing cannot be put behind it (vcheck puts one into every function a planted bug touches, and its own build
does not compile src/ and cli/, so it would not notice that the statement does not compile)."""
import re, sys, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = re.compile(r"^[^/]*\bfn\b.*\{\s*$|^\s*\)[^;]*\{\s*$")
for d in sorted(glob.glob(ROOT + '/seeded/*')):
    path = None
    for line in open(d + '/patch.diff'):
        if line.startswith('--- a/'):
            path = line[6:].strip(); text = open('/repo/' + path).read().split('\n')
        m = re.match(r'@@ -(\d+)', line)
        if m: n = int(m[1]) - 1; continue
        if path is None or line.startswith(('---', '+++')): continue
        if line[0] in ' -': n += 1
        if line[0] in '-+':
            for i in range(min(n, len(text)) - 1, max(-1, n - 300), -1):
                l = text[i]
                if l.strip() == '{' and i: l = text[i - 1].rstrip() + ' {'
                if HEAD.search(l) and not re.search(r"\b(switch|class|struct|enum|interface|match|namespace)\b|^\s*(//|\*)", l):
                    if not re.search(r'\bfn\b', l):
                        back = '\n'.join(text[max(0, i - 15):i + 1])
                        k = max(back.rfind('fn '), 0)
                        if back[k:].count('{') != 1 or 'match' in back[k:]:
                            print(os.path.basename(d), path, i + 1, repr(text[i]))
                    break
