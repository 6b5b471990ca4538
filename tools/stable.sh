#!/bin/bash
# stable.sh TREE OUT.json: the stable tests on a copy of TREE; exit 0 if all pass
W=$(mktemp -d /tmp/gpkit-st.XXXXXX)
trap 'rm -rf "$W"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLCONFIGDIR=$W/mpl
unset MSKHOME
mkdir "$W/src"
tar -C "$1" --exclude=./.git --exclude=./gpkit/env --exclude=__pycache__ -cf - . | tar -C "$W/src" -xf -
cd "$W/src" || exit 1
mkdir -p gpkit/env
echo "installed_solvers : cvxopt" > gpkit/env/settings
PYTHONPATH=$W/src:/opt/vp/plugin timeout -k 10 780 /opt/venv/bin/python -m pytest -q \
    -p no:cacheprovider -p gpkit_collect --rootdir="$W/src" --timeout=120 \
    --continue-on-collection-errors --tb=short -W ignore \
    -o python_files='t_*.py test_*.py' --ignore=gpkit/tests/test_repo.py \
    -o junit_family=xunit2 --junitxml="$W/report.xml" gpkit/tests >"$W/log" 2>&1
/opt/venv/bin/python /opt/vp/results.py "$2" "junit:$W/report.xml" >/dev/null
python3 - "$2" <<'P'
import json, sys
base = json.load(open("/opt/vp/BASELINE.json"))
got = json.load(open(sys.argv[1]))
key = "passed" if "passed" in got else "pass"
stable = base.get("stable") or base.get("passed") or base.get("tests")
missing = sorted(set(stable) - set(got[key]))
print("failing:", missing[:8])
sys.exit(1 if missing else 0)
P
