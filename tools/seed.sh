#!/bin/bash
# seed.sh ID [CHECK]: confirms a planted bug (demo clean, apply, build, tests, demo) and runs its check; always undoes it.
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
bash /opt/vp/build.sh > /tmp/seed-b.log 2>&1 || { echo "clean build failed"; exit 1; }
bash $S/demo.sh > /tmp/seed-d0.log 2>&1; echo "$1 demo clean: $?"
git apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > /tmp/seed-b.log 2>&1 || { echo "build failed"; exit 1; }
bash $S/demo.sh > /tmp/seed-d1.log 2>&1; echo "$1 demo patched: $?"
[ -n "$NOTEST" ] || { bash /opt/vp/test.sh /tmp/seed-t.json 2>&1 | tail -1; }
/verif/bin/check ${2:-$P} quick 2>&1 | grep -E "VIOLATION|unexplained|CHECK-ERROR|done" | cut -c1-300 | head -4
