#!/bin/bash
# mk.sh ID PROP NEEDS BREAKS: take the diff of /tmp/seedwt as planted bug ID, then try the demo
cd /tmp/seedwt; d=/verif/seeded/$1; mkdir -p $d; git diff > $d/patch.diff; git checkout -q -- .
python3 - "$@" <<'P'
import json,sys
id,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open('/verif/seeded/%s/meta.json'%id,'w'),indent=1)
P
bash /verif/sim/demo/new.sh $1
bash /verif/sim/mut.sh $d/patch.diff "$2" 2>&1 | cut -c1-300
