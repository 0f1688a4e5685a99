#!/bin/bash
# Builds all check binaries from the committed files (the checks rebuild what they need themselves).
. /verif/bin/env.sh
for d in mc sys nn; do
  cd /verif/$d && cargo build --offline --quiet --bins || exit 1
done
