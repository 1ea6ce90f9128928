#!/bin/bash
# mut.sh CHECK FILE PYTHON_OLD PYTHON_NEW
. /opt/vp/env.sh
rm -rf /tmp/mu; cp -a /repo /tmp/mu
python3 - "$2" "$3" "$4" <<'P'
import sys
f,o,n=sys.argv[1:]
p='/tmp/mu/'+f
s=open(p).read()
o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
assert o in s, 'old text not found'
open(p,'w').write(s.replace(o,n,1))
P
(cd /tmp/mu && go build ./... ) || exit 9
/tmp/ac -check "$1" -repo /tmp/mu 2>&1 | grep -v "^   " | cut -c1-260 | head -${N:-6}
