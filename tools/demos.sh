#!/bin/bash
# demos.sh [seeded id...]: each planted bug's demo on the current tree and with the patch, and the stable tests with it
cd "$(dirname "$0")/.."
d=$(mktemp -d /tmp/demos-XXXXXX)
for b in ${@:-$(ls seeded)}; do
  cp -a /repo $d/repo
  (cd $d/repo && bash /verif/seeded/$b/demo.sh >/dev/null 2>&1); a=$?
  if ! git -C $d/repo apply /verif/seeded/$b/patch.diff; then echo "$b BAD does not apply"; rm -r $d/repo; continue; fi
  (cd $d/repo && bash /verif/seeded/$b/demo.sh >/dev/null 2>&1); c=$?
  (cd $d/repo && PYTHONPATH=$d/repo/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -x --deselect tests/test_4_jwe.py::test_jwe_09_a3 tests >/dev/null 2>&1); t=$?
  if [ $a = 0 -a $c != 0 -a $t = 0 ]; then echo "$b ok"; else echo "$b BAD clean=$a patched=$c tests=$t"; fi
  rm -r $d/repo
done
rmdir $d
