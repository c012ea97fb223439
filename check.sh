#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current source.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/usr/bin:/bin"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
if [ ! -x bin/rothkocheck ] || [ -n "$(find checker -name '*.go' -newer bin/rothkocheck -print -quit)" ]; then
	bash setup.sh >&2 || { echo "the checker does not build"; exit 2; }
fi
unset GOFLAGS
exec "$ROOT/bin/rothkocheck" -repo "${VERIF_REPO:-/repo}" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -out "$ROOT/evidence" -known "$ROOT/known-findings.txt"
