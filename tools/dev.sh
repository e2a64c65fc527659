#!/bin/bash
# development: build and run one property, evidence in /tmp/ev
cd /verif && tools/build.sh "${2:-core}" && VERIF_DIR=/tmp/ev /usr/bin/time -f "%es %MKB" harness/target/release/"${2:-core}" "$1" $3 2>&1 | cut -c1-${W:-260} | tail -${N:-12}
