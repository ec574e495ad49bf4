#!/bin/bash
# Checks that the tools are there and that every module of the specification parses
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
jars=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
mkdir -p evidence replays
tmp=$(mktemp -d) || exit 1
cp spec/*.tla "$tmp" || exit 1
fail=0
( cd "$tmp" && java -cp "$jars" tla2sany.SANY ./*.tla > sany.log 2>&1 ) || fail=1
grep -q -i -e "error" -e "abort" "$tmp/sany.log" && fail=1
[ $fail = 1 ] && tail -40 "$tmp/sany.log"
/opt/venv/bin/python -c "import numpy, scipy, h5py, tables_io" || fail=1
case "$tmp" in /tmp/*) rm -rf "$tmp" ;; esac
exit $fail
