cd /verif
for s in ${@:-$(ls seeded)}; do git -C /repo apply /verif/seeded/$s/patch.diff || continue; p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])"); echo "== $s $p"; python3-vt check.py $p | cut -c1-220; git -C /repo checkout -- .; done
