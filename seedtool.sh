#!/bin/bash
# dev tool: seedtool.sh ID [notest] : applies seeded/ID/patch.diff in a scratch copy of /repo, runs the demo on both trees and the tests on the patched one
set -u
ID=$1; W=/tmp/seed.$ID
rm -rf "$W"; mkdir -p "$W"
git -C /repo worktree prune
git clone -q /repo "$W/repo" || exit 1
cp -a /verif/seeded/$ID "$W/demo"; rm -f "$W"/demo/patch.diff "$W"/demo/meta.json
cd "$W/repo"
# the scratch copy is imported through PYTHONPATH (the editable install points at /repo)
export PYTHONPATH="$W/repo/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
cp -a /repo/src/corrct/_version.py src/corrct/ 2>/dev/null
python_=/opt/venv/bin/python
$python_ -c "import corrct; assert corrct.__file__.startswith('$W'), corrct.__file__" || exit 1
bash "$W/demo/demo.sh" >/tmp/seed.$ID.clean 2>&1; a=$?
git apply /verif/seeded/$ID/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash "$W/demo/demo.sh" >/tmp/seed.$ID.bad 2>&1; b=$?
echo "$ID demo clean=$a patched=$b"
if [ "${2:-}" != notest ]; then
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 $python_ -m pytest tests -q -p no:cacheprovider -n 8 --dist worksteal --timeout=600 --randomly-seed=1234 --randomly-dont-reorganize --continue-on-collection-errors --ignore=tests/test_alignment.py > /tmp/seed.$ID.test 2>&1
  echo "$ID tests: $(tail -1 /tmp/seed.$ID.test)"
fi
cd /; rm -rf "/tmp/seed.$ID"
