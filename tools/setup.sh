#!/bin/bash
# Compiles the TLC operator overrides once (checks do it themselves if this
# copy isn't there), and tests them against published vectors.
set -eu
cd "$(dirname "$0")/.."
jars=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
h=$(cat java/*.java | sha256sum | cut -c1-16)
if [ ! -d "build/classes-$h" ]; then
    mkdir -p build/tmp
    javac -nowarn -d build/tmp -cp /opt/veriftools/tla/tla2tools.jar java/*.java
    mv build/tmp "build/classes-$h"
fi
classes=$PWD/build/classes-$h
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp specs/*.tla "$work"
cd "$work"
echo 'SPECIFICATION Spec' > run.cfg
java -cp "$classes:$jars" tlc2.TLC -config run.cfg -deadlock -metadir "$work/states" Vectors.tla > out 2>&1 || { tail -30 out; exit 1; }
grep -q 'No error has been found' out
