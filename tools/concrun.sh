#!/bin/bash
# concrun PROP [n] [seed]: run the contracts of one property on random inputs with the real package
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
t=$(mktemp -d)
cd $t
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=${PYDV_REPO:-/repo}:$here OMP_NUM_THREADS=1 MPLCONFIGDIR=$t NUMBA_CACHE_DIR=$t /opt/venv/bin/python -W ignore $here/pydv/conc_e.py $1 $t/o.json ${3:-1} ${2:-20} && python3 - $t/o.json <<'P'
import json,sys
for k,r in json.load(open(sys.argv[1])).items():
    print('%-34s ok %d reject %d noreplay %d missing %d error %d checked %d fails %d'%(k,r['ok'],r['reject'],r['noreplay'],r['missing'],r['error'],r['checked'],len(r['fails'])))
    if r.get('err'): print(r['err'][-500:])
    for f in r['fails'][:2]: print('   FAIL',json.dumps(f.get("failed"))[:300], json.dumps(f)[:600])
P
cd /; rm -rf $t
