#!/bin/bash
# usage: check.sh <property>   decides one property against /repo's current tree
cd "$(dirname "$0")" || exit 2
. ./env.sh
bash ./build.sh || exit 2
exec bin/gv -specs gv/specs -hints hints.json -verif "$PWD" -check "$1"
