#!/bin/bash
# mk.sh ID PROP "needs" "what" [extra sources...]; demo.cpp on stdin; the change is already made in $WT (default /tmp/wt)
id=$1; prop=$2; d=/verif/seeded/$id; mkdir -p $d
cat > $d/demo.cpp
python3 - "$d" "$prop" "$3" "$4" <<'P'
import json,sys
d,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(d+"/meta.json","w"),indent=1)
P
shift 4
cat > $d/demo.sh <<S
#!/bin/bash
# run with cwd = the repository; exits 0 when the behaviour is right
here=\$(cd "\$(dirname "\$0")" && pwd); tmp=\$(mktemp -d) || exit 2
trap 'rm -rf "\$tmp"' EXIT
g++ -std=c++17 -g -O1 ${FLAGS} -DRAPIDJSON_HAS_STDSTRING=1 -I"\$PWD/include" "\$here/demo.cpp" $* -o "\$tmp/demo" ${LIBS} -lpthread || exit 2
cd "\$tmp" && timeout 120 ./demo
S
cd ${WT:-/tmp/wt} && git diff > $d/patch.diff && git checkout -q -- . && wc -l $d/patch.diff
