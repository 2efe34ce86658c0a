#!/bin/bash
# try.sh PROFILE [NUM] [SEED]: generate behaviours of a profile and replay them (development helper).
P=$1; N=${2:-100}; S=${3:-1}; D=${4:-40}
cd /verif/spec; T=/tmp/try.$$; mkdir -p $T
sed "s/Profile = .*/Profile = \"$P\"/; s/Depth = .*/Depth = $D/" MokaSim.cfg > $T/sim.cfg
for i in 1 2 3 4 5 6; do
java -Xss64m -XX:+UseSerialGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir $T/m$i -workers 1 -simulate num=$N -depth $((D+2)) -seed $((S*100+i)) -config $T/sim.cfg MokaSim.tla > $T/o$i 2>&1 &
done; wait
grep -h -A12 "Error:" $T/o* | head -40
cat $T/o* | python3 -c "
import sys,json
for l in sys.stdin:
  if l.startswith('\"@@'): print(json.loads(l)[2:])" > $T/b
/verif/harness/target/debug/moka-verif replay $T/b > $T/r
python3 - $T/r <<'PY'
import json,sys
r=json.load(open(sys.argv[1])); print(r['behaviours'],r['runs'],r['steps'],r['counts'])
seen={}
for m in r['mismatches']:
    k=tuple(m['aspects'])
    if seen.setdefault(k,0)<1:
        seen[k]+=1
        print(m['behaviour'],m['kind'],m['probe'],m['aspects']); 
        for d in m['diffs'][:2]: print('   ',json.dumps(d)[:600])
PY
echo $T
