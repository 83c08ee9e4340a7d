#!/bin/bash
# v.sh unit : extract and verify
cd /verif/units
/verif/build/vx/release/vx --unit $1.vu --out /tmp/$1.rs --meta /tmp/$1.json || exit 1
python3 - <<P
import json
for f in json.load(open('/tmp/$1.json'))['functions']:
    if f['lost']: print('LOST',f['name'],f['lost'])
P
shift_args="${@:2}"
verus /tmp/$1.rs --triggers-mode silent $shift_args 2>&1 | head -${LINES_MAX:-80}
