#!/bin/bash
# check.sh PROPERTY TIER: decides one property against /repo's current working tree.
cd "$(dirname "$0")"
[ -x bin/govc ] || ./setup.sh || exit 2
exec ./bin/govc check -prop "$1" -tier "${2:-quick}"
