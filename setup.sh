#!/bin/bash
# Checks build what they need from /repo; here only the tools are looked at.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence build
java -version >/dev/null 2>&1 && g++ --version >/dev/null && test -f /opt/veriftools/tla/tla2tools.jar
