# summary: run properties
for p in "$@"; do echo "== $p"; timeout 900 python3 run.py $p ${TIER:-quick} 2>&1 | cut -c1-700; done
