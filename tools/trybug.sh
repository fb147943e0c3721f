#!/bin/bash
# trybug.sh SEED [PROP]  apply a planted bug to /repo, run the property's check, undo
p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$1/patch.diff || exit 9
cd /verif; timeout 900 python3 bin/vk.py $p ${@:3}; echo "$1 $p rc=$?"
git -C /repo checkout -- .
