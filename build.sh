#!/bin/bash
# builds the verifier from source
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
cd gv && go build -o ../bin/gv.new . && mv ../bin/gv.new ../bin/gv
