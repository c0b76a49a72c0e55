P=$1; shift
for h in "$@"; do VERIF_KEEP=1 timeout 900 python3 run.py $P ${TIER:-quick} $h;  python3 -c "
import json;d=json.load(open('build/run/$P-${TIER:-quick}/$h/stats.json'))
d.pop('functions');print(d)"; done
