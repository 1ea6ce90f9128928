#!/bin/bash
# mm.sh CHECK SCRIPT.py : python script edits /tmp/mu
. /opt/vp/env.sh
rm -rf /tmp/mu; cp -a /repo /tmp/mu; cd /tmp/mu && python3 - <<P
def sub(f,*prs):
    s=open(f).read()
    for o,n in prs:
        assert o in s, o
        s=s.replace(o,n,1)
    open(f,'w').write(s)
$2
P
go build ./... || exit 9
/tmp/ac -check "$1" -repo /tmp/mu 2>&1 | grep -v "^   " | cut -c1-260 | head -${N:-4}
