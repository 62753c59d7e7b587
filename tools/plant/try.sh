#!/bin/bash
# try.sh ID [BIN PROP]: runs the check of a planted bug's property against it.
id=$1; d=/verif/seeded/$id
prop=${3:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
bin=${2:-$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$prop': print(c['quick_cmd'].split()[1])")}
r=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf $r' EXIT
cp -a /repo $r/repo; git -C $r/repo apply "$d/patch.diff" || exit 2
s=$(date +%s)
VERIF_REPO=$r/repo VERIF_EVIDENCE=$r/ev /verif/run.sh $bin $prop > $r/out 2>&1; rc=$?
echo "$id: $prop exit $rc after $(( $(date +%s) - s )) s: $(grep -v '^VIOLATION' $r/out | tail -1 | cut -c1-220)"
