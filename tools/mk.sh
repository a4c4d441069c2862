mk () 
{ 
    mkdir -p seeded/$1;
    cat > seeded/$1/demo.py;
    printf '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' > seeded/$1/demo.sh;
    python3 -c "import json,sys; json.dump(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),open('seeded/$1/meta.json','w'),indent=1)" "$2" "$3" "$4"
}
