#!/bin/bash
# Everything is interpreted: check that the toolchain is there and the specifications parse.
cd "$(dirname "$0")/.." || exit 1
/opt/venv/bin/python -c 'import amaranth, numpy, scipy' || exit 1
cd spec || exit 1
fail=0
ls *.tla | xargs -P 8 -n 4 sh -c 'for f; do java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >/tmp/sany.$$.out 2>&1 || { cat /tmp/sany.$$.out; echo "PARSE FAILED $f"; exit 255; }; done; rm -f /tmp/sany.$$.out' sh || fail=1
exit $fail
