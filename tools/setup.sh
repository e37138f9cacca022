#!/bin/bash
# The checks build all they need themselves; this only makes sure the specification parses.
set -e
scratch=$(mktemp -d)
trap 'find "$scratch" -delete' EXIT
cd "$(dirname "$0")/../spec"
for m in *.tla; do
  case "$m" in *Proofs.tla | Induction.tla) continue ;; esac # those are for tlapm, which parses them itself
  java -Djava.io.tmpdir="$scratch" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$scratch/said" 2>&1 || { cat "$scratch/said"; exit 1; }
done
echo "specification parses"
