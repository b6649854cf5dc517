#!/bin/bash
# Compiles the Java primitives of spec/Real64.tla into /verif/build (ignored by git).
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
mkdir -p "$V/build"
exec 9>"$V/build/.lock"; flock 9
if [ ! -f "$V/build/cls/.done" ] || [ -n "$(find "$V/java" -newer "$V/build/cls/.done" -name '*.java')" ]; then
  mkdir -p "$V/build/cls"
  javac -nowarn -cp "$J" -d "$V/build/cls" "$V"/java/machupspec/*.java
  touch "$V/build/cls/.done"
fi
