#!/bin/bash
# Runs demo.js (beside this file) on the browser client in the current
# directory: exit 0 if the behaviour it looks at is right.
here=$(cd "$(dirname "$0")" && pwd)
command -v node > /dev/null || PATH=$PATH:/usr/local/bin:/usr/bin
timeout 200 node "$here/demo.js"
