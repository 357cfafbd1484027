#!/bin/bash
# gate_copy.sh REPO : stable tests in a scratch copy
r=$1; x=$(mktemp -d /tmp/w/gc.XXXX)
cd $r
PY=/opt/venv/bin/python
if ! git diff --quiet -- pacal/bary_interp.pyx setup.py; then $PY setup.py build_ext --inplace --force >/dev/null 2>&1 || exit 1; fi
PYTHONPATH=$r MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 timeout -k 10 870 $PY -m pytest -q -p no:cacheprovider -p no:xdist --timeout=120 --continue-on-collection-errors \
    -o junit_family=xunit2 --junitxml=$x/j.xml -o python_files="test_*.py *_test.py testPlot.py" tests > $x/log 2>&1
python3 /opt/vp/results.py $x/t.json "junit:$x/j.xml" >/dev/null
python3 - $x/t.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open(sys.argv[1]))['passed'])
m=sorted(b-t); print("OK" if not m else m[:10]); sys.exit(bool(m))
P
rc=$?
rm -r $x
exit $rc
