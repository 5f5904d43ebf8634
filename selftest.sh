#!/bin/bash
# setup_cmd: the Java overrides of spec/Big.tla agree with its definitions, and the
# elementary functions of spec/Fx.tla have their known values.
set -e
cd "$(dirname "$0")"
W=$PWD/work/selftest
mkdir -p "$W/cls"
cp spec/*.tla spec/*.cfg "$W"
printf -- '---- MODULE Params ----\nTier == "quick"\nQuick == TRUE\nSeed == 1\n====\n' > "$W/Params.tla"
T=/opt/veriftools/tla
javac -nowarn -cp $T/tla2tools.jar -d "$W/cls" java/VerifOverrides.java
cd "$W"
for m in BigTest FxTest; do
  java -XX:+UseParallelGC -Xss256m -Xmx4g \
    -Dtlc2.overrides.TLCOverrides=VerifOverrides:tlc2.overrides.TLCOverrides \
    -cp $T/tla2tools.jar:$T/CommunityModules-deps.jar:cls tlc2.TLC -workers 1 \
    -metadir "$W/meta-$m" -config $m.cfg $m.tla > $m.log 2>&1 || { tail -30 $m.log; exit 1; }
  grep -q "No error has been found" $m.log
done
echo "selftest ok"
