# the sandbox's Go settings, with a home of our own (the go command writes there)
. /opt/vp/env.sh
export HOME="${VERIF_HOME:-/tmp/verif-home}"
mkdir -p "$HOME"
