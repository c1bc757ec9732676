#!/bin/bash
# refreshes the generated tables of DESIGN.md (between the markers)
cd "$(dirname "$0")/.."
python3 - <<'P'
import re,subprocess,json
s=open('DESIGN.md').read()
def put(s,name,txt):
  a='<!-- begin %s -->'%name; b='<!-- end %s -->'%name
  i=s.index(a)+len(a); j=s.index(b)
  return s[:i]+'\n'+txt.strip()+'\n'+s[j:]
s=put(s,'bugs',subprocess.check_output(['python3','tools/bugtable.py'],text=True))
k=json.load(open('known_findings.json'))
seen={}
for e in k: seen.setdefault((e['commit'],e['what']),[]).append(e['property'])
s=put(s,'fixes','| commit | properties | what failed |\n|---|---|---|\n'+'\n'.join('| %s | %s | %s |'%(c,', '.join(p),w) for (c,w),p in seen.items()))
open('DESIGN.md','w').write(s)
P
