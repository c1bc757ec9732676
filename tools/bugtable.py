"""Prints the planted-bug table of DESIGN.md (run by hand)."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| bug | property | needs |\n|---|---|---|')
for d in sorted(glob.glob(H + '/seeded/*')):
  m = json.load(open(d + '/meta.json'))
  print('| %s | %s | %s |' % (os.path.basename(d), m['property'], m['needs'].replace('|', '/')))
