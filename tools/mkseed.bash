mk () 
{ 
    id=$1;
    prop=$2;
    needs=$3;
    breaks=$4;
    mkdir -p seeded/$id;
    git -C /repo diff > seeded/$id/patch.diff;
    git -C /repo checkout -q -- .;
    cat > seeded/$id/demo.sh <<'D'
#!/bin/bash
# exit 0 when the behaviour is right
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
D

    python3 - "$id" "$prop" "$needs" "$breaks" <<'P'
import json,sys
i,p,n,b=sys.argv[1:]
json.dump({'property':p,'needs':n,'what_it_breaks':b},open(f'/verif/seeded/{i}/meta.json','w'),indent=1)
P

    cat > seeded/$id/demo.py
}
