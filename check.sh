#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 3
[ -x bin/gosx ] || bash setup.sh >&2 || exit 3
exec bin/gosx -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
