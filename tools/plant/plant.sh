#!/bin/bash
# plant.sh ID: with an edited copy of /repo in /tmp/pr and main.go in
# /verif/seeded/ID, records the patch and confirms it (builds, stable tests,
# demonstration passes without it and fails with it).
id=$1; d=/verif/seeded/$id; here=$(cd "$(dirname "$0")" && pwd)
[ -f "$d/main.go" -o -f "$d/demo.js" ] && [ -f "$d/meta.json" ] || { echo "no $d/main.go, demo.js or meta.json"; exit 1; }
if [ -f "$d/demo.js" ]; then
    cp "$here/demojs.sh" "$d/demo.sh"; cp "$here/jslib.js" "$d/"
else
    cp "$here/demo.sh" "$here/lib.go" "$d/"
    rm -rf "$d/objecthash"; cp -r /verif/standin/objecthash "$d/objecthash"
fi
chmod +x "$d/demo.sh"
git -C /tmp/pr diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "$id: empty patch"; exit 1; }
git -C /repo apply --check "$d/patch.diff" || exit 1
(cd /tmp/pr && . /verif/env.sh && GOFLAGS=-mod=mod gofmt -l $(git diff --name-only | grep "[.]go$") < /dev/null
 go test -vet=off -count=1 verifiable/api_headers.go verifiable/authorization_headers.go verifiable/mutator_headers.go verifiable/storage_headers.go verifiable/util_map_tree_state.go verifiable/util_path.go verifiable/util_bpath_test.go > /tmp/pr.test 2>&1 || { echo "$id: stable tests fail"; tail -5 /tmp/pr.test; })
(cd /repo && bash "$d/demo.sh" > /tmp/pr.out 2>&1); rc=$?
[ $rc = 0 ] || { echo "$id: demo fails on the unchanged tree ($rc)"; tail -5 /tmp/pr.out; exit 1; }
(cd /tmp/pr && bash "$d/demo.sh" > /tmp/pr.out 2>&1); rc=$?
[ $rc != 0 ] && [ $rc != 3 ] || { echo "$id: demo does not fail with the change ($rc)"; tail -5 /tmp/pr.out; exit 1; }
echo "$id: planted ($rc): $(tail -1 /tmp/pr.out | cut -c1-150)"
git -C /tmp/pr checkout -q -- .
