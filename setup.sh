#!/bin/bash
# Checks that the toolchain the checks need is present and that every specification parses.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/spec" || exit 1
command -v tlc >/dev/null || { echo "tlc missing"; exit 1; }
[ -x /opt/venv/bin/python ] || echo "note: /opt/venv/bin/python missing, python3 is used"
rc=0
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:$(ls /opt/veriftools/tla/*.jar | tr '\n' ':') tla2sany.SANY "$f" >/tmp/sany.$$ 2>&1 || { echo "SANY: $f"; tail -5 /tmp/sany.$$; rc=1; }
done
rm -f /tmp/sany.$$
mkdir -p "$here/evidence"
exit $rc
