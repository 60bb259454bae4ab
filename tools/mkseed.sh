#!/bin/bash
# mkseed.sh ID PROPERTY DEMO.py NEEDS BREAKS : stores /repo's uncommitted change as /verif/seeded/ID and undoes it
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; test -s $d/patch.diff
git -C /repo checkout -- .
cp /verif/tools/seedlib/es.py $d/es.py; [ "$3" -ef $d/demo.py ] || cp "$3" $d/demo.py
cat > $d/demo.sh <<'X'
#!/bin/bash
exec timeout 200 python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"
X
chmod +x $d/demo.sh
python3 - "$d" "$2" "$4" "$5" <<'X'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
X
