#!/bin/bash
# Checks that the tools the framework needs are there and that every specification parses.
cd "$(dirname "$0")/spec" || exit 3
for t in java gcc g++ /opt/venv/bin/python; do command -v "$t" >/dev/null || { echo "missing $t"; exit 3; }; done
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
rc=0
for m in *.tla; do
    java -Djava.io.tmpdir="$tmp" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
        tla2sany.SANY "$m" >"$tmp/log" 2>&1 || { echo "$m does not parse"; tail -20 "$tmp/log"; rc=1; }
done
[ $rc = 0 ] && echo "setup ok"
exit $rc
