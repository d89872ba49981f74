#!/bin/bash
# Compiles the Java evaluation of spec/Real.tla and spec/TraceIO.tla into $1
set -e
mkdir -p "$1"
javac -nowarn -d "$1" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar "$(dirname "$0")"/../java/tind/*.java
