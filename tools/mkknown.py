"""Regenerates known_findings.json from the fix: commits in /repo (by hand)."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {   # commit subject after 'fix: ' -> (properties, what failed)
    'accept 1-D batch_id in Points so that Octree.to_points works': ('C01 C06', 'Octree.to_points raised for every octree'),
    'resize_with_last_val no longer extends the caller\'s (or the default) list': ('C01', 'kernel-size defaults and caller lists grew with every layer built'),
    'OctreeInterp no longer rescales the caller\'s query points in place': ('C01 C02 C07', 'query points were rescaled in place, a second use was wrong'),
    'pass nempty to the bottleneck of SegNet': ('C07', 'SegNet with nempty could not run'),
    'OctreeResBlock2 with stride 2 can be constructed': ('C07', 'constructor raised for stride 2'),
    'OUNet can be constructed and run': ('C07', 'constructor and forward raised'),
    'Points.to keeps the batch size': ('C06', 'Points moved to another device lost its batch size'),
    'Transform.preprocess no longer consumes the stored sample': ('C08 C06', 'an in-memory sample could be visited once only'),
    'Points.flip and orient_normal leave the source arrays intact': ('C08', 'augmentation modified the cached arrays'),
    'Transform.rnd_parameters accepts float angles and intervals': ('C09', 'float angles raised or were rounded away'),
    'scannet autocontrast leaves a constant colour channel finite': ('C09', 'constant colour channels became NaN'),
    'OctreeDropPath never scales a sample twice for tiny probabilities': ('C10', 'kept samples could be multiplied by 2 through rounding of a draw'),
    'eval_step of segmentation predicts every point whatever its label': ('C11', 'unlabelled points got no prediction; evaluation raised without a mask setting'),
    'ranks sharing a log folder no longer race to create output folders': ('C11 C20', 'a rank failed when another created the folder first'),
    'generated shapes whose names contain dots no longer overwrite each other': ('C20', 'samples whose names differ after a dot were saved under one name'),
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.split('\n')
out = []
extra = os.path.join(HERE, 'tools', 'fixes.json')
if os.path.exists(extra):
  MAP.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
for l in log:
  h, _, s = l.partition(' ')
  if s.startswith('fix: '):
    props, what = MAP[s[5:]]
    for p in props.split():
      out.append({'status': 'fixed', 'property': p, 'commit': h, 'what': what, 'line': 'fixed: property=%s %s %s' % (p, h, what)})
json.dump(out, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(out))
