#!/bin/bash
# compiles the accelerator of spec/Big.tla (TLC runs the pure TLA+ definitions without it)
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/out/classes" "$here/evidence"
javac -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -d "$here/out/classes" "$here/java/Big.java"
