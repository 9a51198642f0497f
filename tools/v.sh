#!/bin/bash
# v.sh REGEX [args]: verify contracts, short output (development only)
cd "$(dirname "$0")/.."; . ./env.sh
r=$1; shift
${GOVC:-bin/govc} verify -ct "$r" -v "$@" 2>&1 | grep -v "^    ok\|inlined\|modelled\|abstracted\|loops\|^      pc:\|^      goal" | cut -c1-${W:-260}
