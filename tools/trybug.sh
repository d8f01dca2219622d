#!/bin/bash
# apply a planted change to /repo, run its property's check (or the ones given), undo
id=$1; shift
p=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for q in $p; do timeout 900 python3 -m vp.check $q > /tmp/trybug.$id.$q 2>&1; rc=$?; echo "$id $q exit=$rc $(grep -c ^VIOLATION /tmp/trybug.$id.$q) violations; $(grep -c UNDECIDED /tmp/trybug.$id.$q) undecided"; grep "^VIOLATION\|UNDECIDED\|Error" /tmp/trybug.$id.$q | cut -c1-260 | sed -n 1,4p; done
