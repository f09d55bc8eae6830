mk () 
{ 
    mkdir -p /verif/seeded/$1;
    git -C /tmp/sw diff > /verif/seeded/$1/patch.diff;
    git -C /tmp/sw checkout -q -- .;
    python3 - "$@" <<'E'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
E

}
