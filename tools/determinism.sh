#!/bin/bash
# determinism.sh [RUNS] [CHECK..]: the same seeds twice, in other processes, worker counts and hash seeds; prints checks whose run digests differ
cd "$(dirname "$0")/.."
n=${1:-40}; shift
t=$(mktemp -d)
for c in ${@:-$(seq -f "C%02g" 1 29)}; do
  PYTHONHASHSEED=0 SIM_RUNS=$n VERIF_SEED=5 SIM_WORKERS=2 SIM_DIGESTS=$t/a /opt/venv/bin/python -B check.py $c > $t/oa 2>&1
  PYTHONHASHSEED=777 SIM_RUNS=$n VERIF_SEED=5 SIM_WORKERS=3 SIM_DIGESTS=$t/b /opt/venv/bin/python -B check.py $c > $t/ob 2>&1
  k=$(python3 - $t/a $t/b <<'P'
import sys, json
a,b=[json.load(open(f)) for f in sys.argv[1:]]
k=set(a)&set(b)
print(len(k), 'runs compared,', sum(a[x]!=b[x] for x in k), 'differ', sorted((x for x in k if a[x]!=b[x]),key=str)[:5])
P
)
  echo "$c $k"
done
rm -r "$t"
