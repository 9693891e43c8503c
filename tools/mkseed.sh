#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what" : package the uncommitted diff of /tmp/w/repo and /tmp/w/demo.py as a planted bug
cd "$(dirname "$0")/.."
D=seeded/$1; mkdir -p $D
git -C /tmp/w/repo diff > $D/patch.diff
git -C /tmp/w/repo diff -U0 | awk '/^--- a/{f=substr($2,3)} /^@@/{split(substr($2,2),x,","); n=(x[2]==""?1:x[2]); for(i=0;i<n;i++) print f, x[1]+i}' | while read f l; do
  git -C /tmp/w/repo blame -s -L$l,$l HEAD -- $f | grep -q '^^\?bed4a93' && echo ORIGINAL-LINE || echo own-line $f $l; done | sort | uniq -c >&2
git -C /tmp/w/repo checkout -q -- .
cp /tmp/w/demo.py $D/demo.py; cp lib/rtlsim.py $D/rtlsim.py
cat > $D/demo.sh <<'E'
#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$HERE:$HERE/stubs" exec /opt/venv/bin/python -W ignore "$HERE/demo.py"
E
python3 - "$@" <<'E'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(f"seeded/{sys.argv[1]}/meta.json","w"),indent=1)
E
cat $D/patch.diff | grep '^[+-]'
