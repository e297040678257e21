#!/bin/bash
# mut.sh CHECK FILE OLD NEW [lines]: runs a check against a copy of the sources ($VF_BASE or /repo) with one replacement (first occurrence)
m=$(mktemp -d /tmp/mut-XXXXXX)
b=${VF_BASE:-/repo}
cp -a "$b/src" "$b/include" "$b/Makefile.am" "$b/RM" "$m/" ; mkdir -p "$m/third_party"; cp -a "$b/third_party/." "$m/third_party/"
python3 - "$m/$2" "$3" "$4" <<'P'
import sys
p,a,b=sys.argv[1:]
s=open(p).read()
assert a in s, "text not found"
open(p,'w').write(s.replace(a,b,1))
P
[ $? = 0 ] && VF_REPO=$m "$(dirname "$0")/../bin/check" $1 quick 2>&1 | cut -c1-400 | grep -E "VIOLATION|unexplained|CHECK-ERROR|error:|done" | head -${5:-4}
rm -rf "$m"
