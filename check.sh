#!/bin/bash
# usage: check.sh <property> [tier]    decides one property on /repo's working tree
# environment: VERIF_SEED, VERIF_TIER (quick, thorough)
cd "$(dirname "$0")" || exit 3
mkdir -p _build
(
  flock 9
  ./build.sh
) 9> _build/.lock || exit 3
exec ./_build/kmsim check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" --root "$PWD"
