#!/bin/bash
# Usage: check.sh ID [quick|thorough]. Builds the simulator against /repo's working tree and runs the check.
cd "$(dirname "$0")" || exit 2
tier=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$tier
log=$(mktemp)
if ! (cd sim && cargo build --release --offline --locked) >"$log" 2>&1; then
    tail -40 "$log"
    rm -f "$log"
    echo "the simulator does not build" >&2
    exit 2
fi
if [ "$1" = C20 ] || [ "$1" = ALL ]; then
    # The other builds of the code under test
    if ! (cd sim && bash builds.sh) >"$log" 2>&1; then
        tail -40 "$log"
        rm -f "$log"
        echo "a build of the simulator fails" >&2
        exit 2
    fi
fi
rm -f "$log"
exec ./sim/target/release/rgbsim check "$1" "$tier"
