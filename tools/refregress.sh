#!/bin/bash
# refregress.sh KIND OUT [ids]: all checks on a scratch copy with KIND of refactor.py applied
K=$1; OUT=$2; shift; shift
W=$(mktemp -d /tmp/refac-XXXX)
cp -a /repo $W/repo
/opt/venv/bin/python -W ignore /verif/tools/refactor.py $K $W/repo || exit 1
(cd $W/repo && PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -m pytest tests/tests tests/timings -q -p no:cacheprovider -W ignore 2>&1 | tail -3) > $OUT.tests
VERIF_REPO=$W/repo bash /verif/tools/regress.sh $OUT "$@"
rm -rf "$W"
