#!/bin/bash
# Warms the build cache; every check builds for itself anyway.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
mkdir -p evidence
W=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
(cd mc && go build -o "$W/mc" .)
mkdir -p "$W/i" && "$W/mc" instr "$W/i" >/dev/null &&
  (cd mc && go build -race -overlay "$W/i/overlay.json" -o "$W/conc" ./conc) >/dev/null 2>&1
exit 0
