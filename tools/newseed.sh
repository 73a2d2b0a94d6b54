#!/bin/bash
# usage: newseed.sh ID PROPERTY "needs" "what_it_breaks"   (patch = current diff of the scratch copy $SCRATCH, demo = $SCRATCH/../demo.py)
set -e
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C $SCRATCH diff -- src > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
cp $DEMO $D/demo.py
cat > $D/demo.sh <<'X'
#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
X
python3 - "$D" "$2" "$3" "$4" <<'Y'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
Y
git -C $SCRATCH checkout -q -- .
