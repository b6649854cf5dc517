#!/bin/bash
# tlc.sh MODULE.tla CONFIG.cfg [extra TLC arguments]: TLC with this specification's primitives.
V=$(cd "$(dirname "$0")/.." && pwd)
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
M=$1; C=$2; shift 2
exec java -Xss512m -Xmx${TLC_MEM:-12g} -XX:+UseParallelGC -XX:ParallelGCThreads=4 -DTLA-Library="$V/spec" \
  -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:machupspec.Overrides \
  -cp "$V/build/cls:$J" tlc2.TLC -noGenerateSpecTE -metadir "${TLC_META:-$(mktemp -d)}" -config "$C" "$@" "$M"
