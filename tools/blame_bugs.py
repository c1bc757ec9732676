"""Development helper: for each planted bug, which removed lines belong to the original repository."""
import os, re, subprocess, sys
base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
for d in sorted(os.listdir('/verif/seeded')):
  p = '/verif/seeded/%s/patch.diff' % d
  f = None
  orig = mine = added = 0
  for l in open(p):
    if l.startswith('--- a/'):
      f = l[6:].strip()
      bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', '-s', '--root', f], text=True).splitlines()
    elif l.startswith('@@'):
      n = int(re.match(r'@@ -(\d+)', l).group(1))
    elif l.startswith('+') and not l.startswith('+++'):
      added += 1
    elif l.startswith('-') and not l.startswith('---'):
      if bl[n - 1].lstrip('^').startswith(base[:38]): orig += 1
      else: mine += 1
      n += 1
    elif f and l.startswith(' '):
      n += 1
  print('%-28s orig=%d mine=%d added=%d%s' % (d, orig, mine, added, '' if orig else '   <<<'))
