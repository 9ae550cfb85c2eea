#!/usr/bin/env python3
# Writes the property section of DESIGN.md from texts.py and props.py
import io, os, sys, contextlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
import texts, props
buf = io.StringIO()
with contextlib.redirect_stdout(buf):
  for p in texts.P:
      if p['id'] not in props.PROPS: continue
      print('### %s. %s\n' % (p['id'], p['title']))
      print(p['statement'] + '\n')
      print('*Oracle and harness*: %s\n' % p['note'] if p['note'] else '')
      print('*Bounds (quick)*: ' + '; '.join(r['bounds'] for r in props.PROPS[p['id']]['runs'] if not r.get('thorough_only')) + '.')
      t = [r['bounds'] for r in props.PROPS[p['id']]['runs'] if r.get('thorough_only')]
      if t: print('*Additional bounds (thorough)*: ' + '; '.join(t) + '.')
      print('*Why not tests*: ' + p['why'] + '\n')
d = os.path.join(V, 'DESIGN.md')
t = open(d).read()
h, rest = t.split('## Properties\n', 1)
tail = rest[rest.index('## Defects found'):] if '## Defects found' in rest else '## Defects found\n'
open(d, 'w').write(h + '## Properties\n\n' + buf.getvalue() + tail)
