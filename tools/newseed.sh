#!/bin/bash
# usage: newseed.sh ID PROPERTY "needs" "what it breaks"   (edit made in /tmp/wt, demo.cpp already in seeded/ID)
set -e
D=/verif/seeded/$1
mkdir -p $D
git -C /tmp/wt diff > $D/patch.diff
test -s $D/patch.diff
git -C /tmp/wt checkout -q -- .
cat > $D/demo.sh <<X
#!/bin/bash
# Builds and runs demo.cpp against the library in /repo/_build.
D=\$(cd "\$(dirname "\$0")" && pwd)
rm -f /tmp/sdp_demo_$1
g++ -O1 -std=c++11 -w -fopenmp -I/repo/src "\$D/demo.cpp" -L/repo/_build -lska_sdp_func -Wl,-rpath,/repo/_build -lpthread -o /tmp/sdp_demo_$1 || exit 2
export SKA_SDP_FUNC_LOG_LEVEL=crit
timeout 120 /tmp/sdp_demo_$1
R=\$?
rm -f /tmp/sdp_demo_$1
exit \$R
X
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
cat $D/patch.diff
